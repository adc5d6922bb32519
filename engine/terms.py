"""Terms: interned atoms, polynomials over atoms, intervals, path facts, z3 translation.

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of atom ids.
Integer polynomials have Python-int coefficients and denote exact integers; real polynomials
have float (or int) coefficients and denote reals.  Boolean atoms are 0/1-valued, so that
every boolean combination and every if-then-else is again a polynomial.
"""
import math
from fractions import Fraction
import z3

INF = math.inf


LINV = {}


class Unsupported(Exception):
    pass


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ atoms
class AtomTable:
    def __init__(self):
        self.kind = []
        self.args = []
        self.lo = []
        self.hi = []
        self.isint = []
        self.isbool = []
        self.name = []
        self.inv = {}       # atom id -> id of its inverse
        self.z = []         # cached z3 const
        self.key = {}       # exact key -> id
        self.approx = {}    # (kind, support) -> [ids]
        self.mono = {}      # ranges of monomials when no fact is known
        self.deps = []      # frozenset of input atoms
        self.affine = []    # cached affine relaxation
        self.users = []     # atoms that mention the atom directly
        self.bylen = {}     # number of monomials of the first argument -> atoms


T = AtomTable()
CTOL = 1e-9           # relative coefficient tolerance when identifying real-valued operations


def reset():
    LINV.clear()
    T.__init__()
    _mm.clear()


def set_tol(x):
    global CTOL
    CTOL = x


def new_atom(kind, args, lo, hi, isint, isbool=False, name=None):
    i = len(T.kind)
    T.kind.append(kind)
    T.args.append(args)
    T.lo.append(lo)
    T.hi.append(hi)
    T.isint.append(isint)
    T.isbool.append(isbool)
    T.name.append(name)
    T.z.append(None)
    T.affine.append(None)
    T.users.append([])
    if kind == 'in':
        T.deps.append(frozenset([i]))
    else:
        s = set()
        us = set()
        for a in args:
            if a.__class__ is Poly:
                s |= a.deps()
                us |= a.aset()
        T.deps.append(frozenset(s))
        for a in us:
            T.users[a].append(i)
        if args and args[0].__class__ is Poly:
            q = args[0]
            k = len(q.d) - (() in q.d)
            if k > 1:
                T.bylen.setdefault(k, []).append(i)
            if not us.isdisjoint(F.aff) or (k > 1 and k in F.clens and normkey(q)[0] in F.bounds):
                F.aff.add(i)
                F.undo.append((2, (i,), None))
    return i


_mm = {}


def mulmono(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mm.get(k)
    if r is not None:
        return r
    l = sorted(a + b)
    isb = T.isbool
    need = False
    prev = -1
    for x in l:
        if (x == prev and isb[x]) or x in T.inv:
            need = True
            break
        prev = x
    if need:
        cnt = {}
        for x in l:
            cnt[x] = cnt.get(x, 0) + 1
        for x in list(cnt):
            if isb[x]:
                cnt[x] = 1
            y = T.inv.get(x)
            if y is not None and y in cnt and x in cnt:
                n = min(cnt[x], cnt[y])
                cnt[x] -= n
                cnt[y] -= n
        l = []
        for x in sorted(cnt):
            l += [x] * cnt[x]
    r = tuple(l)
    if len(_mm) > 3000000:
        _mm.clear()
    _mm[k] = r
    return r


class Poly:
    __slots__ = ('d', '_rng', '_rng0', '_key', '_deps', '_nk', '_as', '_q')

    def __init__(self, d):
        self.d = d
        self._rng = None
        self._rng0 = None
        self._q = None
        self._as = None
        self._key = None
        self._deps = None
        self._nk = None

    def isconst(self):
        d = self.d
        return not d or (len(d) == 1 and () in d)

    def const(self):
        return self.d.get((), 0)

    def lead1(self):
        """the atom of a polynomial that is one atom"""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return None

    def deps(self):
        if self._deps is None:
            s = set()
            seen = set()
            for m in self.d:
                for a in m:
                    if a not in seen:
                        seen.add(a)
                        s |= T.deps[a]
            self._deps = frozenset(s)
        return self._deps

    def aset(self):
        s = self._as
        if s is None:
            s = set()
            for m in self.d:
                s.update(m)
            self._as = s = frozenset(s)
        return s

    def atoms(self):
        s = set()
        for m in self.d:
            s.update(m)
        return s

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.d.items()))
        return self._key

    def __repr__(self):
        return pstr(self)


def pconst(c):
    return Poly({(): c} if c else {})


ZERO = Poly({})
ONE = Poly({(): 1})


def patom(a):
    return Poly({(a,): 1})


def padd(p, q):
    a, b = p.d, q.d
    if len(a) < len(b):
        a, b = b, a
    d = dict(a)
    for m, c in b.items():
        o = d.get(m)
        if o is None:
            d[m] = c
        else:
            s = o + c
            if s == 0 or (s.__class__ is float and abs(s) <= 1e-13 * (abs(o) + abs(c))):
                del d[m]
            else:
                d[m] = s
    return Poly(d)


def paddc(p, c):
    if not c:
        return p
    d = dict(p.d)
    o = d.get((), 0)
    s = o + c
    if s == 0 or (s.__class__ is float and abs(s) <= 1e-13 * (abs(o) + abs(c))):
        d.pop((), None)
    else:
        d[()] = s
    return Poly(d)


def pscale(p, c):
    if c == 0:
        return ZERO
    if c == 1:
        return p
    return Poly({m: v * c for m, v in p.d.items()})


def psub(p, q):
    return padd(p, pscale(q, -1))


EXPAND_LIMIT = 6000


def pmul(p, q, limit=None):
    a, b = p.d, q.d
    if not a or not b:
        return ZERO
    if len(a) == 1 and () in a:
        return pscale(q, a[()])
    if len(b) == 1 and () in b:
        return pscale(p, b[()])
    if len(a) * len(b) > (limit or EXPAND_LIMIT):
        if len(a) >= len(b):
            p = atomize(p)
        else:
            q = atomize(q)
        a, b = p.d, q.d
        if len(a) > 60 or len(b) > 60:
            # two long sums: both named, so that the product does not depend on their order
            p, q = atomize(p), atomize(q)
            a, b = p.d, q.d
        if len(a) * len(b) > (limit or EXPAND_LIMIT):
            if len(a) >= len(b):
                p = atomize(p)
            else:
                q = atomize(q)
            a, b = p.d, q.d
    d = {}
    get = d.get
    mag = {}
    if len(a) > len(b):
        a, b = b, a
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mulmono(m1, m2)
            o = get(m)
            c = c1 * c2
            if o is None:
                d[m] = c
            else:
                d[m] = o + c
                if c.__class__ is float or o.__class__ is float:
                    mag[m] = mag.get(m, abs(o)) + abs(c)
    for m in [m for m, c in d.items() if c == 0]:
        del d[m]
    # what remains of terms that cancel is rounding
    for m, x in mag.items():
        c = d.get(m)
        if c is not None and abs(c) <= 1e-13 * x:
            del d[m]
    return Poly(d)


def isfloatd(d):
    for c in d.values():
        if c.__class__ is float:
            return True
    return False


def peq(p, q):
    return p.d == q.d


# ------------------------------------------------------------------ normal forms
def lead(p):
    """Leading non-constant monomial (canonical order) or None."""
    best = None
    for m in p.d:
        if m and (best is None or m < best):
            best = m
    return best


def pint(p):
    for m, c in p.d.items():
        if c.__class__ is not int:
            return False
        for a in m:
            if not T.isint[a]:
                return False
    return True


def normkey(p):
    """(key of the non-constant part scaled by its leading coefficient, lc, const)."""
    if p._nk is None:
        m0 = lead(p)
        if m0 is None:
            p._nk = (None, 1, p.const())
        else:
            lc = p.d[m0]
            if len(p.d) - (1 if () in p.d else 0) == 1:
                key = m0
            else:
                key = tuple(sorted((m, float(c) / lc) for m, c in p.d.items() if m))
            p._nk = (key, lc, p.const())
    return p._nk


def atomize(p):
    """A fresh atom standing for polynomial p (identified up to scaling)."""
    if len(p.d) <= 1 or (len(p.d) == 2 and () in p.d):
        return p
    q = compact(p)
    if q is not p:
        return atomize(q)
    q = undef(p)
    if q is not p:
        if all(c == int(c) for c in q.d.values()):
            q = Poly({m: int(c) for m, c in q.d.items()})
        if len(q.d) <= 1 or (len(q.d) == 2 and () in q.d):
            return q
        p = q
    isint = pint(p)
    if isint:
        c0 = p.const()
        g = 0
        for m, c in p.d.items():
            if m:
                g = math.gcd(g, c)
        m0 = lead(p)
        if p.d[m0] < 0:
            g = -g
        q = Poly({m: c // g for m, c in p.d.items() if m})
        k = ('def', q.key())
        a = T.key.get(k)
        if a is None:
            with nofacts():
                lo, hi = bestrange(q)
            a = new_atom('def', (q,), lo, hi, True)
            T.key[k] = a
        return Poly({(a,): g, (): c0} if c0 else {(a,): g})
    m0 = lead(p)
    lc = p.d[m0]
    q = Poly({m: c / lc for m, c in p.d.items()})

    def rng():
        lo, hi = quadrange(p)
        return (lo / lc, hi / lc) if lc > 0 else (hi / lc, lo / lc)
    a = approx_atom('def', q, None, rng)
    return Poly({(a,): lc})


def approx_atom(kind, q, extra, rng):
    """Intern real operation kind(q, extra), identifying arguments up to CTOL."""
    sup = (kind, extra, tuple(sorted(q.d)))
    lst = T.approx.setdefault(sup, [])
    for a in lst:
        r = T.args[a][0].d
        ok = True
        for m, c in q.d.items():
            c2 = r[m]
            if c != c2 and abs(c - c2) > CTOL * max(abs(c), abs(c2)):
                ok = False
                break
        if ok:
            return a
    with nofacts():
        lo, hi = rng()
    a = new_atom(kind, (q,) if extra is None else (q, extra), lo, hi, False)
    lst.append(a)
    return a


# ------------------------------------------------------------------ facts (path condition)
class Facts:
    def __init__(self):
        self.known = {}      # bool atom -> 0/1
        self.bounds = {}     # normkey -> (lo, hi)
        self.aff = set()     # atoms whose range may depend on the path condition
        self.clens = {}      # lengths of the sums that have bounds
        self.asserts = []    # list of Poly (bool) that equal 1
        self.undo = []
        self.version = 0
        self._vc = 0
        self.marks = []

    def push(self):
        self.marks.append((len(self.undo), len(self.asserts), self.version))

    def pop(self):
        n, na, ver = self.marks.pop()
        while len(self.undo) > n:
            kind, k, old = self.undo.pop()
            if kind == 2:
                self.aff.difference_update(k)
                continue
            if kind == 1 and old is None and k and k[0].__class__ is tuple:
                n2 = len(k)
                self.clens[n2] -= 1
                if not self.clens[n2]:
                    del self.clens[n2]
            dct = self.known if kind == 0 else self.bounds
            if old is None:
                dct.pop(k, None)
            else:
                dct[k] = old
        del self.asserts[na:]
        self.version = ver

    def clear(self):
        vc = self._vc
        self.__init__()
        self._vc = vc

    def bump(self):
        self._vc += 1
        self.version = self._vc

    def setbound(self, k, lo, hi):
        old = self.bounds.get(k)
        if old is not None:
            lo = max(lo, old[0])
            hi = min(hi, old[1])
            if (lo, hi) == old:
                return
        self.undo.append((1, k, old))
        self.bounds[k] = (lo, hi)
        if old is None and k:
            if k[0].__class__ is tuple:
                n = len(k)
                self.clens[n] = self.clens.get(n, 0) + 1
                self.touch([a for a in T.bylen.get(n, ()) if normkey(T.args[a][0])[0] == k])
            else:
                self.touch(k)

    def touch(self, ats):
        """the ranges of these atoms and of everything built on them may change"""
        aff = self.aff
        new = []
        st = [a for a in ats if a not in aff]
        while st:
            a = st.pop()
            if a in aff:
                continue
            aff.add(a)
            new.append(a)
            for b in T.users[a]:
                if b not in aff:
                    st.append(b)
        if new:
            self.undo.append((2, new, None))

    def learn(self, a, v):
        """Boolean atom a has value v."""
        old = self.known.get(a)
        if old is not None:
            return
        self.undo.append((0, a, None))
        self.known[a] = v
        self.touch((a,))
        kind = T.kind[a]
        if kind in ('ge', 'gt', 'eq'):
            p = T.args[a][0]
            k, lc, c = normkey(p)       # p = lc*(N) + c, lc > 0
            if k is None:
                return
            t = -c / lc if not (isinstance(c, int) and isinstance(lc, int) and c % lc == 0) else -c // lc
            if kind == 'eq':
                if v:
                    self.setbound(k, t, t)
                return
            isint = T.args[a][0]._rng is not None and pint(p)
            if v:
                self.setbound(k, t, INF)
            else:
                if kind == 'ge' and pint(p):
                    # p <= -1
                    t2 = Fraction(-c - 1, lc) if isinstance(c, int) else (-c - 1) / lc
                    if isinstance(t2, Fraction):
                        t2 = int(t2) if t2.denominator == 1 else float(t2)
                    self.setbound(k, -INF, t2)
                else:
                    self.setbound(k, -INF, t)
        elif kind == 'bdef':
            q = T.args[a][0]
            if v:
                self.assume_poly(q)
            else:
                self.assume_poly(psub(ONE, q))

    def assume_poly(self, p):
        """Boolean polynomial p equals 1."""
        d = p.d
        if len(d) == 1:
            (m, c), = d.items()
            if c == 1:
                for a in m:
                    self.learn(a, 1)
        elif len(d) == 2 and d.get(()) == 1:
            for m, c in d.items():
                if m and c == -1 and len(m) == 1:
                    self.learn(m[0], 0)

    def add(self, p):
        self.bump()
        self.asserts.append(p)
        self.assume_poly(p)


F = Facts()


class nofacts:
    """Evaluate ranges that are stored with an atom without the path condition."""

    def __enter__(self):
        self.s = (F.known, F.bounds, F.version)
        if F.version:
            F.known, F.bounds, F.version = {}, {}, 0

    def __exit__(self, *a):
        F.known, F.bounds, F.version = self.s


# ------------------------------------------------------------------ intervals
def ipow(lo, hi, n):
    if n == 1:
        return lo, hi
    if n % 2 == 0:
        a, b = abs(lo), abs(hi)
        if lo <= 0 <= hi:
            return 0, max(a, b) ** n if max(a, b) < INF else INF
        return min(a, b) ** n, (max(a, b) ** n if max(a, b) < INF else INF)
    return (lo ** n if lo > -INF else lo), (hi ** n if hi < INF else hi)


def imul(a, b, c, d):
    xs = []
    for x in (a, b):
        for y in (c, d):
            if x == 0 or y == 0:
                xs.append(0)
            else:
                xs.append(x * y)
    return min(xs), max(xs)


_dyn = [0, {}]
DYN = ('bits', 'floor', 'sqrt', 'def', 'pow', 'inv')


def atom_range(a):
    lo, hi = T.lo[a], T.hi[a]
    if not F.version or a not in F.aff:
        return lo, hi
    k = F.known.get(a)
    if k is not None:
        return k, k
    b = F.bounds.get((a,))
    if b is not None:
        lo = max(lo, b[0])
        hi = min(hi, b[1])
    kind = T.kind[a]
    if kind in DYN:
        if _dyn[0] != F.version:
            _dyn[0] = F.version
            _dyn[1] = {}
        r = _dyn[1].get(a)
        if r is None:
            _dyn[1][a] = (lo, hi)
            r = dyn_range(a, kind)
            _dyn[1][a] = r
        lo = max(lo, r[0])
        hi = min(hi, r[1])
    return lo, hi


def dyn_range(a, kind):
    args = T.args[a]
    l, h = prange(args[0])
    if kind == 'def':
        return l, h
    if kind == 'floor':
        return (l // args[1] if l > -INF else l), (h // args[1] if h < INF else h)
    if kind == 'bits':
        if l >= 0 and h < 3e38:
            fb = f32bits if args[1] == 32 else f64bits
            return max(0, fb(l) - 2), fb(h) + 2
        return -INF, INF
    if kind == 'sqrt':
        return (math.sqrt(l) if l > 0 else 0.0), (math.sqrt(h) if 0 <= h < INF else INF)
    if kind == 'pow' and l >= 0 and args[1] > 0:
        return l ** args[1], (h ** args[1] if h < INF else INF)
    if kind == 'inv':
        if l > 0:
            return (1.0 / h if h < INF else 0.0), 1.0 / l
        if h < 0:
            return 1.0 / h, (1.0 / l if l > -INF else 0.0)
    return -INF, INF


def mono_range(m):
    if len(m) == 1:
        return atom_range(m[0])
    if not F.version or (m not in F.bounds and F.aff.isdisjoint(m)):
        r = T.mono.get(m)
        if r is None:
            r = T.mono[m] = mono_range_(m)
        return r
    return mono_range_(m)


def mono_range_(m):
    lo, hi = 1, 1
    i = 0
    n = len(m)
    while i < n:
        j = i
        a = m[i]
        while j < n and m[j] == a:
            j += 1
        l, h = atom_range(a)
        if j - i > 1:
            l, h = ipow(l, h, j - i)
        lo, hi = imul(lo, hi, l, h)
        i = j
    if F.bounds:
        b = F.bounds.get(m)
        if b is not None:
            lo = max(lo, b[0])
            hi = min(hi, b[1])
    return lo, hi


def prange(p):
    r = p._rng
    ver = F.version
    if r is not None and r[0] == ver:
        return r[1], r[2]
    static = not ver or (F.aff.isdisjoint(p.aset()) and (
        not F.clens or len(p.d) - (() in p.d) not in F.clens or normkey(p)[0] not in F.bounds))
    if static:
        r = p._rng0
        if r is not None:
            return r
    lo = hi = 0
    for m, c in p.d.items():
        if not m:
            lo += c
            hi += c
            continue
        l, h = mono_range(m)
        if c > 0:
            lo += c * l if l else 0
            hi += c * h if h else 0
        else:
            lo += c * h if h else 0
            hi += c * l if l else 0
    if F.clens and len(p.d) - (() in p.d) in F.clens:
        k, lc, c = normkey(p)
        b = F.bounds.get(k)
        if b is not None and k is not None and k.__class__ is tuple:
            l = b[0] * lc + c if abs(b[0]) < INF else b[0] * (1 if lc > 0 else -1)
            h = b[1] * lc + c if abs(b[1]) < INF else b[1] * (1 if lc > 0 else -1)
            if lc < 0:
                l, h = h, l
            if l > lo:
                lo = l
            if h < hi:
                hi = h
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    p._rng = (ver, lo, hi)
    if static:
        p._rng0 = (lo, hi)
    return lo, hi


def qrange(p):
    """a range of p that costs little: the known one, or that of the sum it was made from"""
    r = p._rng
    if r is not None and r[0] == F.version:
        return r[1], r[2]
    r = p._q
    if r is not None and r[0] == F.version:
        return r[1], r[2]
    return prange(p)


def affine_of_atom(a):
    """Affine relaxation of an integer atom over input-like atoms: (dict, elo, ehi)."""
    r = T.affine[a]
    if r is None:
        k = T.kind[a]
        if k == 'floor':
            p, n = T.args[a]
            d, lo, hi = affine_of(p)
            r = ({x: c / n for x, c in d.items()}, lo / n - (n - 1) / n, hi / n)
        elif k == 'def':
            r = affine_of(T.args[a][0])
        else:
            r = ({a: 1.0}, 0.0, 0.0)
        T.affine[a] = r
    return r


def affine_of(p):
    d = {}
    lo = hi = 0.0
    for m, c in p.d.items():
        if not m:
            lo += c
            hi += c
        elif len(m) == 1 and T.kind[m[0]] in ('floor', 'def', 'in'):
            dd, l, h = affine_of_atom(m[0])
            for x, k in dd.items():
                d[x] = d.get(x, 0.0) + c * k
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        else:
            l, h = mono_range(m)
            if c < 0:
                l, h = h, l
            lo += c * l
            hi += c * h
    return d, lo, hi


def noise_of(p, memo):
    """p as a linear form over its inputs, one fraction per floor and whatever else occurs (only its range is kept):
    {atom: c, ('r', atom): c, ('v', monomial): c, None: c}.   floor(q/k) = q/k - r with 0 <= r <= (k-1)/k."""
    out = {}
    for m, c in p.d.items():
        if not m:
            out[None] = out.get(None, 0.0) + c
            continue
        k = T.kind[m[0]] if len(m) == 1 else ''
        if k not in ('in', 'floor', 'def'):
            out[('v', m)] = out.get(('v', m), 0.0) + c
            continue
        a = m[0]
        if k == 'in':
            out[a] = out.get(a, 0.0) + c
            continue
        f = memo.get(a, 0)
        if f == 0:
            f = noise_of(T.args[a][0], memo)
            if k == 'floor':
                n = T.args[a][1]
                f = {x: v / n for x, v in f.items()}
                f[('r', a)] = -1.0
            memo[a] = f
        for x, v in f.items():
            out[x] = out.get(x, 0.0) + c * v
    return out


def noise_range(x):
    if x[0] == 'r':
        n = T.args[x[1]][1]
        return 0.0, (n - 1) / n
    return mono_range(x[1])


def noise_upper(p, memo=None):
    """(upper bound, inputs at their best ends, linear form) of p by its noise form"""
    f = noise_of(p, {} if memo is None else memo)
    hi = mag = 0.0
    env = {}
    for x, c in f.items():
        if x is None:
            l = h = 1.0
        elif isinstance(x, tuple):
            l, h = noise_range(x)
        else:
            l, h = atom_range(x)
            env[x] = h if c > 0 else l
        hi += c * (h if c > 0 else l)
        mag += abs(c) * max(abs(l), abs(h))
    return hi + 1e-11 * mag, env, f


def noise_unsat(f, bound):
    """the solver's word that the linear form never exceeds the bound, whatever the inputs and fractions"""
    s = z3.Solver()
    s.set('timeout', 5000)
    ts = []
    for i, (x, c) in enumerate(f.items()):
        c = zreal(round(c * 2 ** 60) / 2 ** 60) if abs(c) < 2 ** -8 else zreal(c)
        if x is None:
            ts.append(c)
            continue
        v = z3.Real('n%d' % i)
        l, h = noise_range(x) if isinstance(x, tuple) else atom_range(x)
        if abs(l) == INF or abs(h) == INF:
            return False
        s.add(v >= zreal(float(l)), v <= zreal(float(h)))
        ts.append(c * v)
    s.add(z3.Sum(ts) > zreal(float(bound)))
    t0 = _time.time()
    r = s.check()
    Z.queries += 1
    Z.time += _time.time() - t0
    if r == z3.unsat:
        Z.unsat += 1
    elif r == z3.sat:
        Z.sat += 1
    else:
        Z.unknown += 1
    return r == z3.unsat


def univariate(p, bound):
    """the solver's answer whether a polynomial in one bounded input exceeds the bound:
    ('unsat', None), ('sat', value) or None when it does not apply or does not finish"""
    a = None
    for m in p.d:
        for x in m:
            if a is None:
                a = x
            if x != a:
                return None
    if a is None or T.kind[a] != 'in' or max(map(len, p.d)) < 3:
        return None
    lo, hi = atom_range(a)
    if not (lo > -INF and hi < INF):
        return None
    # in the distance from the lower end, scaled to 0..1
    n = max(map(len, p.d))
    w = Fraction(hi) - Fraction(lo)
    co = [Fraction(0)] * (n + 1)
    for m, c in p.d.items():
        k = len(m)
        for j in range(k + 1):
            co[j] += Fraction(c) * math.comb(k, j) * Fraction(lo) ** (k - j) * w ** j
    v = z3.Real('u')
    s = z3.Tactic('qfnra-nlsat').solver()
    s.set('timeout', 10000)
    e = z3.Q(0, 1)
    for c in reversed(co):
        e = e * v + z3.Q(c.numerator, c.denominator)
    s.add(v >= 0, v <= 1, e > zreal(float(bound)))
    t0 = _time.time()
    r = s.check()
    Z.queries += 1
    Z.time += _time.time() - t0
    if r == z3.unsat:
        Z.unsat += 1
        return 'unsat', None
    if r != z3.sat:
        Z.unknown += 1
        return None
    Z.sat += 1
    x = s.model()[v]
    x = Fraction(0) if x is None else x.as_fraction() if z3.is_rational_value(x) else x.approx(20).as_fraction()
    return 'sat', {a: int(lo + x * w)}


def affrange(p):
    d, lo, hi = affine_of(p)
    mag = abs(lo) + abs(hi)
    for a, c in d.items():
        l, h = atom_range(a)
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
        mag += abs(c) * max(abs(l), abs(h))
    e = 1e-12 * mag
    return lo - e, hi + e


def split_range(p, depth=3, avoid=()):
    """Range by case split on boolean atoms occurring in p."""
    lo, hi = prange(p)
    if depth == 0:
        return lo, hi
    b = None
    for m in p.d:
        for a in m:
            if T.isbool[a] and a not in F.known and a not in avoid:
                b = a
                break
        if b is not None:
            break
    if b is None:
        return lo, hi
    rs = []
    for v in (1, 0):
        F.push()
        F.bump()
        F.learn(b, v)
        q = subst_known(p)
        rs.append(split_range(q, depth - 1))
        F.pop()
    l = min(r[0] for r in rs)
    h = max(r[1] for r in rs)
    return max(lo, l), min(hi, h)


def modrange(p):
    """Tighten using p = c*(q - k*floor(q/k)) + rest."""
    lo, hi = prange(p)
    for m, c in list(p.d.items()):
        if len(m) == 1 and T.kind[m[0]] == 'floor':
            q, k = T.args[m[0]]
            for m2, c2 in p.d.items():
                # floor(q/k1) - (k/k1)*floor(q/k)
                if len(m2) == 1 and m2 != m and T.kind[m2[0]] == 'floor':
                    q1, k1 = T.args[m2[0]]
                    if k % k1 == 0 and c == -c2 * (k // k1) and q1.d == q.d:
                        l, h = modrange(Poly({x: y for x, y in p.d.items() if x != m and x != m2}))
                        if c2 > 0:
                            h += c2 * (k // k1 - 1)
                        else:
                            l += c2 * (k // k1 - 1)
                        lo = max(lo, l)
                        hi = min(hi, h)
            if c % k:
                continue
            s = -c // k
            rest = dict(p.d)
            del rest[m]
            ok = True
            for m2, c2 in q.d.items():
                if not m2:
                    continue
                if rest.get(m2) != s * c2:
                    ok = False
                    break
                del rest[m2]
            if not ok:
                continue
            rest[()] = rest.get((), 0) - s * q.const()
            l, h = modrange(Poly({a: b for a, b in rest.items() if b}))
            if s > 0:
                h += s * (k - 1)
            else:
                l += s * (k - 1)
            lo = max(lo, l)
            hi = min(hi, h)
    return lo, hi


def bestrange(p):
    lo, hi = prange(p)
    if p.isconst():
        return lo, hi
    kinds = set()
    for a in p.atoms():
        kinds.add('b' if T.isbool[a] else T.kind[a])
    if 'floor' in kinds:
        l, h = modrange(p)
        lo = max(lo, l)
        hi = min(hi, h)
    if kinds & {'floor', 'def'}:
        l, h = affrange(p)
        lo = max(lo, math.ceil(l) if l > -INF else l)
        hi = min(hi, math.floor(h) if h < INF else h)
    if 'b' in kinds:
        l, h = split_range(p)
        lo = max(lo, l)
        hi = min(hi, h)
    if lo < 0 and any(len(m) == 2 for m in p.d):
        l = quadlow(p)
        if l > lo:
            lo = l
        if hi > 0 and all(len(m) < 2 or c < 0 or m[0] != m[1] for m, c in p.d.items()):
            h = -quadlow(pscale(p, -1))
            if h < hi:
                hi = h
    p._rng = (F.version, lo, hi)
    if not F.version or (F.aff.isdisjoint(p.aset()) and len(p.d) - (() in p.d) not in F.clens):
        p._rng0 = (lo, hi)
    return lo, hi


def expand_defs(p, limit=20000):
    """p with named sums inside monomials of degree <= 2 written out, or None"""
    size = 0
    for m in p.d:
        k = 1
        if len(m) > 2 and any(T.kind[a] == 'def' for a in m):
            return None
        for a in m:
            if T.kind[a] == 'def':
                k *= len(T.args[a][0].d)
        size += k
    if size > limit:
        return None
    r = {}
    for m, c in p.d.items():
        fs = [T.args[a][0] if T.kind[a] == 'def' else Poly({(a,): 1}) for a in m]
        if not fs:
            r[()] = r.get((), 0) + c
            continue
        if len(fs) == 1:
            for m2, c2 in fs[0].d.items():
                r[m2] = r.get(m2, 0) + c * c2
            continue
        for m1, c1 in fs[0].d.items():
            cc = c * c1
            for m2, c2 in fs[1].d.items():
                k = mulmono(m1, m2)
                if k is None:
                    continue
                r[k] = r.get(k, 0) + cc * c2
    return Poly({m: c for m, c in r.items() if c})





def linvec(a):
    """atom a as {plain atom: coefficient} (with None for the constant), named linear sums written out; None if not linear"""
    r = LINV.get(a)
    if r is None:
        if T.kind[a] != 'def':
            r = {a: 1.0}
        else:
            r = {}
            for m, c in T.args[a][0].d.items():
                if len(m) > 1:
                    r = False
                    break
                v = linvec(m[0]) if m else {None: 1.0}
                if v is False:
                    r = False
                    break
                for x, k in v.items():
                    r[x] = r.get(x, 0.0) + k * c
        LINV[a] = r
    return r


def npvec(a):
    """linvec as arrays: (atom ids, coefficients, constant)"""
    import numpy as np
    r = LINV.get(('np', a))
    if r is None:
        v = linvec(a)
        if v is False:
            r = False
        else:
            ks = sorted(x for x in v if x is not None)
            r = (np.array(ks, dtype=np.int64), np.array([v[k] for k in ks]), v.get(None, 0.0))
        LINV[('np', a)] = r
    return r


def npquad(a):
    """a named quadratic of plain atoms as arrays: (i, j, coefficients), {atom or None: c}, [(c, u, v)]"""
    import numpy as np
    r = LINV.get(('q', a))
    if r is None:
        r = quadparts(T.args[a][0])
        if r is not False:
            ij, lin, prods = r
            r = (np.array([x[0] for x in ij], dtype=np.int64), np.array([x[1] for x in ij], dtype=np.int64),
                 np.array([x[2] for x in ij])), lin, prods
        LINV[('q', a)] = r
    return r


def quadparts(p):
    ij, lin, prods = [], {}, []
    for m, k in p.d.items():
        if not m:
            lin[None] = lin.get(None, 0.0) + k
        elif len(m) == 1:
            v = linvec(m[0])
            if v is False:
                prods.append((k, m[0], None))
                continue
            for x, c in v.items():
                lin[x] = lin.get(x, 0.0) + k * c
        elif len(m) == 2:
            if T.kind[m[0]] != 'def' and T.kind[m[1]] != 'def':
                ij.append((m[0], m[1], float(k)))
            else:
                prods.append((k, m[0], m[1]))
        else:
            return False
    return ij, lin, prods


def cholbound(p):
    """a positive lower bound of c + x'Ax with A positive semidefinite up to far less than c, or -INF"""
    key = ('cb', p.key())
    r = LINV.get(key)
    if r is None:
        r = LINV[key] = cholbound_(p)
    return r


def cholbound_(p):
    import numpy as np
    lin = {}
    mats, outs = [], []

    def collect(q, k0, depth):
        """q: (ij arrays or list, lin, prods)"""
        (i, j, c), l, prods = q
        if len(i):
            mats.append((i, j, c * k0))
        for x, c in l.items():
            lin[x] = lin.get(x, 0.0) + k0 * c
        for c, u, v in prods:
            if v is None:
                if T.kind[u] != 'def' or depth > 3:
                    return False
                r = npquad(u)
                if r is False or not collect(r, k0 * c, depth + 1):
                    return False
            else:
                a, b = npvec(u), npvec(v)
                if a is False or b is False:
                    return False
                outs.append((k0 * c, a, b))
                for x, y in ((a, b), (b, a)):
                    if y[2]:
                        for z, w in zip(x[0].tolist(), x[1].tolist()):
                            lin[z] = lin.get(z, 0.0) + k0 * c * w * y[2]
                if a[2] and b[2]:
                    lin[None] = lin.get(None, 0.0) + k0 * c * a[2] * b[2]
        return True
    q = quadparts(p)
    if q is False:
        return -INF
    ij, l, prods = q
    q = (np.array([x[0] for x in ij], dtype=np.int64), np.array([x[1] for x in ij], dtype=np.int64),
         np.array([x[2] for x in ij])), l, prods
    if not collect(q, 1.0, 0):
        return -INF
    c = lin.pop(None, 0.0)
    for a, k in lin.items():
        c += min(k * T.lo[a], k * T.hi[a]) if k else 0
    if not c > 0:
        return -INF
    vs = [m[0] for m in mats] + [m[1] for m in mats] + [o[1][0] for o in outs] + [o[2][0] for o in outs]
    if not vs:
        return -INF
    vs = np.unique(np.concatenate(vs))
    n = len(vs)
    if n > 1500:
        return -INF
    s2 = 0.0
    for a in vs.tolist():
        s2 += max(T.lo[a] ** 2, T.hi[a] ** 2)
    if not s2 < INF:
        return -INF
    A = np.zeros((n, n))
    for i, j, k in mats:
        np.add.at(A, (np.searchsorted(vs, i), np.searchsorted(vs, j)), k)
    for k, a, b in outs:
        A[np.ix_(np.searchsorted(vs, a[0]), np.searchsorted(vs, b[0]))] += k * np.outer(a[1], b[1])
    A = (A + A.T) / 2
    d = c / (4 * s2)
    # the factorisation's rounding must be far below the shift
    if not d > 1e-9 * np.abs(A).sum(axis=0).max():
        return -INF
    # independent blocks
    todo = np.ones(n, dtype=bool)
    for s in range(n):
        if not todo[s]:
            continue
        comp = np.zeros(n, dtype=bool)
        comp[s] = True
        while True:
            c2 = comp | (A[comp] != 0).any(axis=0)
            if (c2 == comp).all():
                break
            comp = c2
        todo &= ~comp
        B = A[np.ix_(comp, comp)]
        try:
            np.linalg.cholesky(B + d * np.eye(len(B)))
        except np.linalg.LinAlgError:
            return -INF
    return c / 2


def strongrange(p):
    """a better (and dearer) range: named sums written out, quadratic part bounded as a quadratic form"""
    lo, hi = bestrange(p)
    if lo <= 0 and p.const() > 0:
        l = cholbound(p)
        if l > 0:
            return l, hi
    q = p
    for _ in range(3):
        if not any(T.kind[a] == 'def' for m in q.d for a in m):
            break
        q2 = expand_defs(q)
        if q2 is None:
            break
        q = q2
    l, h = factrange(p)
    lo, hi = max(lo, l), min(hi, h)
    l, h = separange(q)
    lo, hi = max(lo, l), min(hi, h)
    if lo < 0 and sosnonneg(p):
        lo = 0
    if not all(len(m) <= 2 for m in q.d):
        return lo, hi
    q, k = clean_round(q)
    l = quadlow(q)
    if l * k > lo:
        lo = l * k
    h = -quadlow(pscale(q, -1))
    if h * k < hi:
        hi = h * k
    return lo, hi


def sameside(q, b, v):
    """q >= 0 because q is a multiple of what comparison b has just decided to be v"""
    if T.kind[b] not in ('ge', 'gt'):
        return False
    a = subst_known(T.args[b][0])
    m = lead(a)
    if m is None or m not in q.d:
        return False
    k = q.d[m] / a.d[m]
    return (k > 0) == bool(v) and approx_same(q, pscale(a, k), 1e-12)


def casesign(p, depth=2):
    """p >= 0 in both cases of the comparison that occurs most often in it"""
    cnt = {}
    for m in p.d:
        for a in m:
            if T.isbool[a] and T.kind[a] in ('ge', 'gt', 'eq') and a not in F.known:
                cnt[a] = cnt.get(a, 0) + 1
    if not cnt:
        return False
    b = max(sorted(cnt), key=lambda a: cnt[a])
    for v in (1, 0):
        F.push()
        F.bump()
        F.learn(b, v)
        try:
            q = subst_known(p)
            ok = prange(q)[0] >= 0 or sameside(q, b, v) or strongrange(q)[0] >= 0 or (depth > 0 and casesign(q, depth - 1))
        finally:
            F.pop()
            F.bump()
        if not ok:
            return False
    return True


def separange(p):
    """range of a sum of independent quadratic parts of at most two atoms each"""
    par = {}

    def find(a):
        while par.get(a, a) != a:
            a = par[a]
        return a
    for m in p.d:
        if len(m) > 2:
            return -INF, INF
        for a in m:
            par.setdefault(a, a)
        if len(m) == 2:
            x, y = find(m[0]), find(m[1])
            if x != y:
                par[x] = y
    part = {}
    for m, c in p.d.items():
        if m:
            part.setdefault(find(m[0]), {})[m] = c
    lo = hi = p.const()
    for q in part.values():
        vs = sorted(set(a for m in q for a in m))
        if len(vs) > 2:
            l, h = prange(Poly(q))
            lo += l
            hi += h
            continue
        x = vs[0]
        y = vs[-1] if len(vs) == 2 else None
        bx = atom_range(x)
        by = atom_range(y) if y is not None else (0, 0)
        if not all(abs(v) < INF for v in bx + by):
            return -INF, INF
        A, B = q.get((x, x), 0), q.get((x,), 0)
        C, D, E = (q.get((y, y), 0), q.get((y,), 0), q.get((x, y), 0)) if y is not None else (0, 0, 0)

        def val(u, v):
            return A * u * u + B * u + C * v * v + D * v + E * u * v
        pts = [(u, v) for u in bx for v in by]
        for u in bx:
            if C:
                pts.append((u, -(D + E * u) / (2 * C)))
        for v in by:
            if A:
                pts.append((-(B + E * v) / (2 * A), v))
        det = 4 * A * C - E * E
        if det:
            pts.append(((E * D - 2 * C * B) / det, (E * B - 2 * A * D) / det))
        zs = [val(u, v) for u, v in pts if bx[0] <= u <= bx[1] and by[0] <= v <= by[1]]
        lo += min(zs)
        hi += max(zs)
    return lo, hi


def factrange(p, depth=0):
    """range with the atom that most monomials share factored out, repeatedly"""
    r = prange(p)
    if len(p.d) < 2 or len(p.d) > 200 or depth > 12:
        return r
    cnt = {}
    for m in p.d:
        for a in set(m):
            if len(m) > 1 or not T.isbool[a]:
                cnt[a] = cnt.get(a, 0) + 1
    if not cnt:
        return r
    g = max(sorted(cnt), key=lambda a: cnt[a])
    if cnt[g] < 2:
        return r
    q, s = {}, {}
    for m, c in p.d.items():
        if g in m:
            k = list(m)
            k.remove(g)
            q[tuple(k)] = c
        else:
            s[m] = c
    l, h = factrange(Poly(q), depth + 1)
    gl, gh = atom_range(g)
    l, h = imul(gl, gh, l, h)
    l2, h2 = factrange(Poly(s), depth + 1) if s else (0, 0)
    return max(r[0], l + l2), min(r[1], h + h2)


def quotrange(p):
    """range of n*inv(q) with n = k*q + c, written k + c*inv(q)"""
    common = None
    for m in p.d:
        s = set(a for a in m if T.kind[a] == 'inv')
        common = s if common is None else common & s
        if not common:
            return -INF, INF
    for a in common:
        n = {}
        for m, c in p.d.items():
            k = list(m)
            k.remove(a)
            n[tuple(k)] = c
        q = T.args[a][0]
        f = None
        if not (n.keys() <= q.d.keys() and q.d.keys() - n.keys() <= {()}):
            continue
        for m, c in n.items():
            if m:
                r = c / q.d[m]
                if f is None:
                    f = r
                elif abs(f - r) > 1e-7 * abs(f):
                    f = None
                    break
        if f is None:
            continue
        c = n.get((), 0) - f * q.d.get((), 0)
        l, h = prange(q)
        if l <= 0:
            continue
        lo, hi = (c / h if h < INF else 0.0), c / l
        if lo > hi:
            lo, hi = hi, lo
        e = 1e-6 * abs(f)
        return f + lo - e, f + hi + e
    return -INF, INF


def sosnonneg(p):
    """p >= 0 as a sum of squares and products of two square roots with a small enough factor"""
    if len(p.d) > 60:
        return False
    sq = []
    cross = {}
    for m, c in p.d.items():
        k = sorted(m)
        if c > 0 and len(k) % 2 == 0 and k[::2] == k[1::2] and k:
            sq.append([tuple(k[::2]), c])
        elif not m and c >= 0:
            continue
        elif c > 0 and mono_range(m)[0] >= 0:
            continue
        else:
            cross[m] = c
    if not cross:
        return True
    body = []
    for r, al in sq:
        b = T.args[r[0]][0] if len(r) == 1 and T.kind[r[0]] == 'def' else Poly({r: 1})
        body.append(b)
    for i, (r, al) in enumerate(sq):
        b = body[i]
        if al <= 0 or len(b.d) > 20:
            continue
        for j, (r2, al2) in enumerate(sq):
            if i == j or al2 <= 0 or len(body[j].d) != 1:
                continue
            # cross == k * rho * body(i) * r2
            lm = max(b.d, key=lambda m: (len(m), m))
            for m in list(cross):
                k = list(m)
                try:
                    for a in lm + tuple(next(iter(body[j].d))):
                        k.remove(a)
                except ValueError:
                    continue
                rho = tuple(k)
                co = cross[m] / b.d[lm] / next(iter(body[j].d.values()))
                kk = tuple(k) + tuple(next(iter(body[j].d)))
                prod = {tuple(sorted(kk + x)): co * c for x, c in b.d.items()}
                if all(abs(cross.get(x, 0) - c) <= 1e-6 * abs(c) for x, c in prod.items()):
                    l, h = mono_range(rho) if rho else (1, 1)
                    w = abs(co) * max(abs(l), abs(h))
                    if w * w <= 4 * al * al2 * (1 - 1e-6):
                        for x in prod:
                            del cross[x]
                        sq[i][1] = sq[j][1] = 0
                        if not cross:
                            return True
                        break
    return False


def clean_round(q):
    """(q / k, k): the quadratic coefficients made integral where they are so up to rounding"""
    qc = [abs(c) for m, c in q.d.items() if len(m) == 2]
    if not qc or all(c.__class__ is int for c in qc):
        return q, 1
    r = {}
    b = min(qc)
    if max(qc) < 1e9 * b:
        for m, c in q.d.items():
            c = c / b
            if len(m) == 2:
                k = round(c)
                if abs(c - k) > 1e-9 * abs(c):
                    break
                c = k
            r[m] = c
        else:
            return Poly(r), b
    r = {}
    for m, c in q.d.items():
        if c.__class__ is float and len(m) == 2:
            k = round(c)
            if k and abs(c - k) <= 1e-12 * abs(k):
                c = k
        r[m] = c
    return Poly(r), 1


def quadrange(p):
    """range for naming p: dearer means for quadratic forms"""
    r = prange(p)
    if r[0] >= 0 or len(p.d) > 6000 or len(p.d) < 2:
        return r
    if any(len(m) == 2 for m in p.d) and all(len(m) <= 2 for m in p.d):
        return strongrange(p)
    # a factor all monomials share
    common = None
    for m in p.d:
        common = set(m) if common is None else common & set(m)
        if not common:
            return r
    lo, hi = 1, 1
    d = {}
    for a in common:
        l, h = atom_range(a)
        lo, hi = imul(lo, hi, l, h)
    for m, c in p.d.items():
        k = list(m)
        for a in common:
            k.remove(a)
        d[tuple(k)] = c
    if lo < 0:
        return r
    l, h = quadrange(Poly(d))
    l, h = imul(lo, hi, l, h)
    return max(l, r[0]), min(h, r[1])


def quadlow(p):
    """lower bound of p that uses positive semidefiniteness of its quadratic part (exact arithmetic)"""
    diag = {}
    off = {}
    rest = {}
    for m, c in p.d.items():
        if len(m) == 2:
            a, b = m
            if a == b:
                diag[a] = c
            else:
                off[m] = c
        else:
            rest[m] = c
    if not off:
        return -INF
    s = {}
    for (a, b), c in off.items():
        s[a] = s.get(a, 0) + abs(c)
        s[b] = s.get(b, 0) + abs(c)
    bad = [a for a in s if s[a] > 2 * diag.get(a, 0)]
    if bad and not psd(diag, off, s):
        return -INF
    return prange(Poly(rest))[0]


def psd(diag, off, vs):
    vs = sorted(vs)
    n = len(vs)
    if n > 80 or any(diag.get(a, 0) <= 0 for a in vs):
        return False
    ix = {a: i for i, a in enumerate(vs)}
    M = [[Fraction(0)] * n for _ in range(n)]
    for a in vs:
        M[ix[a]][ix[a]] = Fraction(diag[a])
    for (a, b), c in off.items():
        M[ix[a]][ix[b]] = M[ix[b]][ix[a]] = Fraction(c) / 2
    for k in range(n):
        d = M[k][k]
        if d < 0:
            return False
        if d == 0:
            if any(M[k][j] for j in range(k + 1, n)):
                return False
            continue
        for i in range(k + 1, n):
            f = M[i][k] / d
            if f:
                r, q = M[i], M[k]
                for j in range(i, n):
                    if q[j]:
                        r[j] -= f * q[j]
                        M[j][i] = r[j]
    return True


def subst_known(p):
    kn = F.known
    if not kn:
        return p
    d = {}
    ch = False
    for m, c in p.d.items():
        keep = m
        for a in m:
            if a in kn:
                if kn[a] == 0:
                    keep = None
                    break
                keep = tuple(x for x in keep if x != a)
        if keep is None:
            ch = True
            continue
        if keep is not m:
            ch = True
        o = d.get(keep)
        if o is None:
            d[keep] = c
        else:
            d[keep] = o + c
    if not ch:
        return p
    return Poly({m: c for m, c in d.items() if c})


# ------------------------------------------------------------------ constructors
def mk_input(name, lo, hi, isint=True, isbool=False):
    return new_atom('in', (), lo, hi, isint, isbool, name)


def mkfloor(p, k):
    if k == 1:
        return p
    q = {}
    r = {}
    c0 = 0
    for m, c in p.d.items():
        if not m:
            c0 = c
        elif c % k == 0:
            q[m] = c // k
        else:
            r[m] = c
    if c0:
        if c0 // k:
            q[()] = c0 // k
        c0 = c0 % k
    if not r:
        return Poly(q)
    # drop multiples: reduce when a coefficient exceeds k by far, keep sign otherwise
    g = k
    for c in r.values():
        g = math.gcd(g, c)
    if g > 1:
        k //= g
        r = {m: c // g for m, c in r.items()}
        c0 //= g
        if k == 1:
            for m, c in r.items():
                q[m] = q.get(m, 0) + c
            if c0:
                q[()] = q.get((), 0) + c0
            return Poly({m: c for m, c in q.items() if c})
    if len(r) == 1:
        (m, c), = r.items()
        if c == 1 and len(m) == 1 and T.kind[m[0]] == 'floor':
            pp, kk = T.args[m[0]]
            return padd(Poly(q), mkfloor(paddc(pp, c0 * kk), k * kk))
    if c0:
        r[()] = c0
    R = Poly(r)
    lo, hi = prange(R)
    if not (math.floor(hi / k) - math.floor(lo / k) <= 1 if abs(lo) < 1e15 and abs(hi) < 1e15 else False):
        lo, hi = bestrange(R)
    fl = lo // k if lo > -INF else -INF
    fh = hi // k if hi < INF else INF
    if fl == fh:
        return paddc(Poly(q), fl)
    if fh == fl + 1:
        b = mkge(paddc(R, -fh * k))
        return padd(paddc(Poly(q), fl), b)
    key = ('floor', R.key(), k)
    a = T.key.get(key)
    if a is None:
        with nofacts():
            lo, hi = bestrange(R)
        a = new_atom('floor', (R, k), lo // k if lo > -INF else lo, hi // k if hi < INF else hi, True)
        T.key[key] = a
    if q:
        return padd(Poly(q), Poly({(a,): 1}))
    return Poly({(a,): 1})


def mkmod(p, k):
    return psub(p, pscale(mkfloor(p, k), k))


def undefs(a, d):
    """named sum a is written out in d"""
    if T.isint[a] or len(d) <= 2:
        return True
    q = T.args[a][0]
    return False


def undef(p):
    """named sums written out (conditions and names are kept over the written-out form)"""
    d = p.d
    n = 0
    found = False
    for m, c in d.items():
        if len(m) == 1 and T.kind[m[0]] == 'def' and undefs(m[0], d):
            found = True
            n += len(T.args[m[0]][0].d)
        else:
            n += 1
    if not found or n > EXPAND_LIMIT:
        return p
    r = {}
    for m, c in d.items():
        if len(m) == 1 and T.kind[m[0]] == 'def' and undefs(m[0], d):
            for m2, c2 in T.args[m[0]][0].d.items():
                r[m2] = r.get(m2, 0) + c * c2
        else:
            r[m] = r.get(m, 0) + c
    return Poly({m: c for m, c in r.items() if c})


def compact(p):
    """a real sum that contains a named sum written out refers to it by name"""
    d = p.d
    if len(d) < 4:
        return p
    for x in sorted(p.atoms()):
        if T.kind[x] == 'def' and not T.isint[x]:
            q = T.args[x][0].d
            if len(q) >= len(d):
                continue
            m0 = lead(T.args[x][0])
            if m0 not in d:
                continue
            k = d[m0] / q[m0]
            ok = True
            for m, c in q.items():
                e = d.get(m)
                if e is None or abs(e - k * c) > CTOL * abs(e):
                    ok = False
                    break
            if ok:
                r = {m: c for m, c in d.items() if m not in q}
                r[(x,)] = r.get((x,), 0) + k
                if not r[(x,)]:
                    del r[(x,)]
                return compact(Poly(r))
    return p


def norm1(p):
    """argument of a unary operation: sums of named integer sums become one named sum"""
    if len(p.d) <= 1:
        return p
    p = compact(p)
    q = undef(p) if pint(p) else p
    return p if q is p else atomize(q)


def mkge(p):
    """[p >= 0] for an integer polynomial."""
    lo, hi = prange(p)
    if lo >= 0:
        return ONE
    if hi < 0:
        return ZERO
    p = undef(p)
    r = abscmp(p, '>=')
    if r is not None:
        return r
    m0 = lead(p)
    c0 = p.const()
    g = 0
    for m, c in p.d.items():
        if m:
            g = math.gcd(g, c)
    d = {m: c // g for m, c in p.d.items() if m}
    # sum(d)*g + c0 >= 0  <=>  sum(d) >= ceil(-c0/g)  <=> sum(d) + floor(c0/g) >= 0
    k = c0 // g
    neg = d[m0] < 0
    if neg:
        # -N + k >= 0  <=> N <= k <=> not (N - k - 1 >= 0)
        d = {m: -c for m, c in d.items()}
        k = -k - 1
    if len(d) == 1 and d.get(m0) == 1 and len(m0) == 1 and T.isbool[m0[0]]:
        # N boolean: N + k >= 0
        r = Poly({m0: 1}) if k == -1 else (ONE if k >= 0 else ZERO)
        return psub(ONE, r) if neg else r
    if len(d) == 1 and len(m0) == 1 and T.kind[m0[0]] == 'bits' and d[m0] == 1 and k == -(1 << (T.args[m0[0]][1] - 1)):
        # the sign bit of a float (a zero counts as positive)
        r = mkcmp_real(T.args[m0[0]][0], '>=')
        return r if neg else psub(ONE, r)
    if k:
        d[()] = k
    q = Poly(d)
    key = ('ge', q.key())
    a = T.key.get(key)
    if a is None:
        if q_isbool01(q):
            pass
        a = new_atom('ge', (q,), 0, 1, True, True)
        T.key[key] = a
    kn = F.known.get(a)
    if kn is not None:
        r = ONE if kn else ZERO
    else:
        r = Poly({(a,): 1})
        l, h = bestrange(q)
        if l >= 0:
            r = ONE
        elif h < 0:
            r = ZERO
    return psub(ONE, r) if neg else r


def q_isbool01(q):
    return False


def mkeq0(p):
    """[p == 0] for an integer polynomial."""
    lo, hi = prange(p)
    if lo > 0 or hi < 0:
        return ZERO
    if p.isconst():
        return ONE if p.const() == 0 else ZERO
    p = undef(p)
    r = abscmp(p, '>=')
    if r is not None:
        return r
    m0 = lead(p)
    c0 = p.const()
    g = 0
    for m, c in p.d.items():
        if m:
            g = math.gcd(g, c)
    if c0 % g:
        return ZERO
    if p.d[m0] < 0:
        g = -g
    d = {m: c // g for m, c in p.d.items()}
    if len(d) == 1 and len(m0) == 1 and T.isbool[m0[0]]:
        return psub(ONE, Poly({m0: 1}))
    if len(d) == 2 and len(m0) == 1 and T.isbool[m0[0]] and d.get(()) == -1 and d[m0] == 1:
        return Poly({m0: 1})
    # all-boolean small polynomials: product of conditions
    q = Poly(d)
    lo, hi = bestrange(q)
    if lo > 0 or hi < 0:
        return ZERO
    if lo == 0 and len(d) > 1 and all(len(m) == 1 for m in d if m) and () not in d and all(c > 0 for c in d.values()) \
            and all(T.lo[m[0]] == 0 for m in d):
        # sum of nonnegative terms is 0 iff each is 0
        if len(d) <= 4:
            r = ONE
            for m in d:
                r = pmul(r, mkeq0(Poly({m: 1})))
            return r
    if len(d) > 1:
        # one normal form for "a nonnegative sum is zero"
        if lo == 0:
            return psub(ONE, mkge(paddc(q, -1)))
        if hi == 0:
            return psub(ONE, mkge(paddc(pscale(q, -1), -1)))
    key = ('eq', q.key())
    a = T.key.get(key)
    if a is None:
        a = new_atom('eq', (q,), 0, 1, True, True)
        T.key[key] = a
    kn = F.known.get(a)
    if kn is not None:
        return ONE if kn else ZERO
    return Poly({(a,): 1})


def isfinite_frac(c):
    return c.__class__ is float and c - c == 0 and c != int(c)


def abscmp(p, op):
    """[+-|q| + k op 0] as comparisons of q and -q with k; None when p is nothing of the kind"""
    n = len(p.d)
    if n < 3:
        return None
    cnt = {}
    for m in p.d:
        for a in m:
            if T.kind[a] in ('ge', 'gt') and T.isbool[a]:
                cnt[a] = cnt.get(a, 0) + 1
    for s, k in sorted(cnt.items()):
        q = T.args[s][0]
        if not (len(q.d) <= k + 1 and k <= len(q.d) + 1 and n <= 2 * len(q.d) + 1):
            continue
        A = under(p, s, 0)
        if not same_dir(nonconst(A), nonconst(q)):
            continue
        B = under(p, s, 1)
        if not same_dir(nonconst(B), nonconst(q)):
            continue
        m0 = lead(q)
        if abs(A.d[m0] + B.d[m0]) > 1e-9 * abs(A.d[m0]):
            continue
        r1, r0 = mkcmp_real(B, op), mkcmp_real(A, op)
        S = Poly({(s,): 1})
        return padd(condand(s, 1, r1), condand(s, 0, r0))
    return None


def condand(s, v, r):
    """[s == v] and r, where r may imply the first part"""
    if r.isconst():
        c = Poly({(s,): 1})
        return pmul(c if v else psub(ONE, c), r)
    if len(r.d) == 1 and r.lead1() is not None:
        x, val = r.lead1(), 1
    elif len(r.d) == 2 and r.d.get(()) == 1:
        x, val = psub(ONE, r).lead1(), 0
    else:
        x = None
    if x is not None and T.kind[x] in ('ge', 'gt'):
        i = implied(x, val, s)
        if i is not None:
            return r if i == v else ZERO
    c = Poly({(s,): 1})
    return pmul(c if v else psub(ONE, c), r)


def mkcmp_real(p, op):
    """[p op 0] for real p; op in '>', '>=', '=='."""
    lo, hi = prange(p)
    if p.isconst():
        c = p.const()
        return ONE if (c > 0 if op == '>' else c >= 0 if op == '>=' else c == 0) else ZERO
    if op == '==':
        if lo > 0 or hi < 0:
            return ZERO
    elif op == '>':
        if lo > 0:
            return ONE
        if hi <= 0:
            return ZERO
    else:
        if lo >= 0:
            return ONE
        if hi < 0:
            return ZERO
    if pint(p):
        if op == '>':
            return mkge(paddc(p, -1))
        if op == '>=':
            return mkge(p)
        return mkeq0(p)
    c0 = p.const()
    if isfinite_frac(c0):
        # integer-valued part compared with a fraction
        q = Poly({m: (int(c) if c == int(c) else c) for m, c in p.d.items() if m})
        if pint(q):
            if op == '==':
                return ZERO
            return mkge(paddc(q, math.floor(c0)))
    p = undef(compact(p))
    if op != '==':
        r = abscmp(p, op)
        if r is not None:
            return r
    m0 = lead(p)
    lc = p.d[m0]
    q = Poly({m: c / lc for m, c in p.d.items()})
    neg = False
    kind = {'>': 'gt', '>=': 'ge', '==': 'eq'}[op]
    if lc < 0 and kind != 'eq':
        neg = True
        kind = 'ge' if kind == 'gt' else 'gt'
    sup = ('r' + kind, tuple(sorted(q.d)))
    lst = T.approx.setdefault(sup, [])
    a = None
    for x in lst:
        r = T.args[x][0].d
        if all(c == r[m] or abs(c - r[m]) <= CTOL * max(abs(c), abs(r[m])) for m, c in q.d.items()):
            a = x
            break
    if a is None:
        a = new_atom(kind, (q,), 0, 1, True, True)
        lst.append(a)
    kn = F.known.get(a)
    if kn is not None:
        r = ONE if kn else ZERO
    else:
        r = Poly({(a,): 1})
        l, h = bestrange(q) if any(T.isbool[x] for x in q.atoms()) else prange(q)
        if kind == 'gt':
            if l > 0:
                r = ONE
            elif h <= 0:
                r = ZERO
        elif kind == 'ge':
            if l >= 0:
                r = ONE
            elif h < 0:
                r = ZERO
        elif l > 0 or h < 0:
            r = ZERO
    return psub(ONE, r) if neg else r


BOOL_LIMIT = 24


def bshrink(p):
    """Keep boolean polynomials small by naming them."""
    if len(p.d) <= BOOL_LIMIT:
        return p
    k = ('bdef', p.key())
    a = T.key.get(k)
    if a is None:
        a = new_atom('bdef', (p,), 0, 1, True, True)
        T.key[k] = a
    return Poly({(a,): 1})


def band(p, q):
    return bshrink(pmul(p, q))


def bor(p, q):
    return bshrink(psub(padd(p, q), pmul(p, q)))


def bxor(p, q):
    return bshrink(psub(padd(p, q), pscale(pmul(p, q), 2)))


def bnot(p):
    return psub(ONE, p)


def mkite(c, a, b):
    """if c then a else b, polynomials."""
    if c.isconst():
        return a if c.const() else b
    d = psub(a, b)
    if not d.d:
        return a
    if F.known:
        c = subst_known(c)
        if c.isconst():
            return a if c.const() else b
    # boundary-insensitive selections get one normal form:  [p>0]*k*p == [p>=0]*k*p
    neg = False
    cd = c.d
    at = None
    if len(cd) == 1:
        (m, k), = cd.items()
        if k == 1 and len(m) == 1:
            at = m[0]
    elif len(cd) == 2 and cd.get(()) == 1:
        for m, k in cd.items():
            if m and k == -1 and len(m) == 1:
                at = m[0]
                neg = True
    if at is None and 2 <= len(cd) <= 3:
        xs = [m[0] for m in cd if len(m) == 1 and T.kind[m[0]] in ('ge', 'gt')]
        if len(xs) == 2 and len(cd) == 2 + (() in cd):
            x, y = xs
            if implied(x, 1, y) != 1:
                x, y = y, x
            if implied(x, 1, y) == 1:
                # two thresholds of one expression: x implies y
                k, cx, cy = cd.get((), 0), cd[(x,)], cd[(y,)]
                r = mkite(Poly({(y,): 1}), a if k + cy else b, a if k else b)
                return mkite(Poly({(x,): 1}), a if k + cx + cy else b, r)
    if at is not None:
        kind = T.kind[at]
        if kind in ('ge', 'gt'):
            a2, b2 = under(a, at, 0 if neg else 1), under(b, at, 1 if neg else 0)
            a2, b2 = bitsunder(a2, c), bitsunder(b2, psub(ONE, c))
            if a2 is not a or b2 is not b:
                a, b = a2, b2
                d = psub(a, b)
                if not d.d:
                    return a
        if kind == 'ge' and a.d and b.d and len(a.d) == len(b.d):
            r = jointab(at, b if neg else a, a if neg else b)
            if r is not None:
                return r
        if kind == 'gt':
            # where q > 0 fails, a nonnegative q is zero
            q = T.args[at][0]
            e = a if neg else b
            if e.d and same_dir(e, q) and strongrange(q)[0] >= 0:
                return mkite(c, ZERO, b) if neg else mkite(c, a, ZERO)
        if kind in ('ge', 'gt'):
            q = T.args[at][0]
            s = None
            if kind == 'gt' and same_dir(d, q):
                cc = mkcmp_real(q, '>=')
                c = psub(ONE, cc) if neg else cc
            elif kind == 'ge' and pint(q) and same_dir(d, paddc(q, 1)):
                cc = mkge(paddc(q, 1))
                c = psub(ONE, cc) if neg else cc
        elif kind == 'eq' and not neg:
            # [q==0] * (a-b) with a-b multiple of q is zero
            if same_dir(d, T.args[at][0]):
                return b
        elif kind == 'eq' and neg:
            if same_dir(d, T.args[at][0]):
                return a
    if len(d.d) * len(c.d) > EXPAND_LIMIT:
        d = atomize(d)
    return padd(b, pmul(c, d))


def nonconst(p):
    return Poly({m: c for m, c in p.d.items() if m}) if () in p.d else p


def implied(at, val, x):
    """truth of comparison x when comparison at has truth val and both bound the same expression; None if open"""
    p, q = T.args[at][0], T.args[x][0]
    if abs(len(p.d) - len(q.d)) > 1:
        return None
    m0 = lead(p)
    if m0 is None or m0 not in q.d or lead(q) != m0:
        return None
    a, b = p.d[m0], q.d[m0]
    if a <= 0 or b <= 0 or not same_dir(nonconst(q), nonconst(p)):
        return None
    ta, tb = -p.const() / a, -q.const() / b
    if abs(ta - tb) <= 1e-9 * max(abs(ta), abs(tb)) and ta != tb:
        return None
    if val:
        if tb < ta or (tb == ta and (T.kind[x] == 'ge' or T.kind[at] == 'gt')):
            return 1
    else:
        if tb > ta or (tb == ta and (T.kind[x] == 'gt' or T.kind[at] == 'ge')):
            return 0
    return None


def under(p, at, val):
    """p where comparison at is known to be val"""
    kn = {}
    for a in p.atoms():
        if T.isbool[a]:
            if a == at:
                kn[a] = val
            elif T.kind[a] in ('ge', 'gt'):
                v = implied(at, val, a)
                if v is not None:
                    kn[a] = v
    if not kn:
        return p
    d = {}
    for m, c in p.d.items():
        k = m
        for a in m:
            if a in kn:
                if not kn[a]:
                    k = None
                    break
                k = tuple(x for x in k if x != a)
        if k is not None:
            d[k] = d.get(k, 0) + c
    return Poly({m: c for m, c in d.items() if c})


def tabfactor(p):
    """the table atom all monomials share, when there is one with a condition-dependent partner"""
    c = None
    for m in p.d:
        s = set(x for x in m if T.kind[x] == 'tab' and m.count(x) == 1)
        c = s if c is None else c & s
    return max(c) if c else None


def divatom(p, x):
    d = {}
    for m, c in p.d.items():
        k = list(m)
        k.remove(x)
        d[tuple(k)] = c
    return Poly(d)


def jointab(at, a, b):
    """[i >= k] ? B[i + e] : A[i]  as one table"""
    if len(a.d) == 1 and len(b.d) == 1 and all(len(m) == 1 for p in (a, b) for m in p.d):
        ma, mb = next(iter(a.d)), next(iter(b.d))
        if T.kind[ma[0]] != 'tab' or T.kind[mb[0]] != 'tab':
            return None
    else:
        # a common factor besides the tables
        x, y = tabfactor(a), tabfactor(b)
        if x is None or y is None or x == y or len(a.d) > 60:
            return None
        fa, fb = divatom(a, x), divatom(b, y)
        if not same_dir(fa, fb):
            return None
        m = lead(fb)
        r = jointab(at, Poly({(x,): fa.d[m] / fb.d[m]}), Poly({(y,): 1}))
        return pmul(r, fb) if r is not None else None
    ca, cb = a.d[ma], b.d[mb]
    ia, ta = T.args[ma[0]]
    ib, tb = T.args[mb[0]]
    e = psub(ia, ib)
    if not e.isconst():
        return None
    r = []
    for v in (1, 0):
        F.push()
        try:
            F.add(Poly({(at,): 1}) if v else Poly({(): 1, (at,): -1}))
            r.append(bestrange(ib))
        finally:
            F.pop()
            F.bump()
    # the condition splits the index
    if r[0][0] != r[1][1] + 1:
        return None
    e, k = int(e.const()), int(r[0][0])
    if not 0 < k <= len(tb) or not 0 <= k + e < len(ta):
        return None
    tab = tuple([cb * x for x in tb[:k]] + [ca * x for x in ta[k + e:]])
    return mktab(tab, ib, T.isint[ma[0]] and T.isint[mb[0]])


BITKINDS = ('tab', 'frombits', 'bits')


def bitsunder(p, c):
    """p, which works on bit patterns of floats, simplified where c holds"""
    if len(p.d) > 60 or not any(T.kind[a] in BITKINDS for a in p.atoms()):
        return p
    F.push()
    try:
        F.add(c)
        q = Rebuilder().poly(p)
        if q.d == p.d:
            return p
        # conditions inside table indices: one table per side, then joined
        for a in sorted(q.atoms()):
            if T.kind[a] == 'tab':
                for g in sorted(T.args[a][0].atoms()):
                    if T.kind[g] == 'ge':
                        g1 = Poly({(g,): 1})
                        g0 = psub(ONE, g1)
                        return mkite(g1, bitsunder(q, g1), bitsunder(q, g0))
    finally:
        F.pop()
        F.bump()
    return q


def same_dir(d, q):
    """d == k*q for some nonzero k."""
    if len(d.d) != len(q.d):
        return False
    m0 = lead(q)
    if m0 is None or m0 not in d.d:
        return False
    k = d.d[m0] / q.d[m0]
    for m, c in q.d.items():
        e = d.d.get(m)
        if e is None or abs(e - k * c) > 1e-12 * abs(e):
            return False
    return True


# ---- real operations
def pmono_split(p):
    """(coef, monomial) if p is a single monomial."""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        return c, m
    return None


def mkinv(p):
    """1/p for real p."""
    if p.isconst():
        c = p.const()
        if c == 0:
            raise ZeroDivisionError
        return pconst(1.0 / c)
    p = norm1(p)
    sm = pmono_split(p)
    if sm:
        c, m = sm
        r = pconst(1.0 / c)
        i = 0
        for a in m:
            r = pmul(r, Poly({(inv_atom(a),): 1}))
        return r
    m0 = lead(p)
    lc = p.d[m0]
    q = Poly({m: c / lc for m, c in p.d.items()})

    def rng():
        lo, hi = quadrange(p)
        lo, hi = (lo / lc, hi / lc) if lc > 0 else (hi / lc, lo / lc)
        if lo > 0:
            return 1.0 / hi if hi < INF else 0.0, 1.0 / lo
        if hi < 0:
            return 1.0 / hi, 1.0 / lo if lo > -INF else 0.0
        if lo == 0:
            return (1.0 / hi if hi < INF else 0.0), INF
        return -INF, INF
    a = approx_atom('inv', q, None, rng)
    return Poly({(a,): 1.0 / lc})


def inv_atom(a):
    r = T.inv.get(a)
    if r is None:
        lo, hi = T.lo[a], T.hi[a]
        if lo > 0:
            l, h = (1.0 / hi if hi < INF else 0.0), 1.0 / lo
        elif hi < 0:
            l, h = 1.0 / hi, (1.0 / lo if lo > -INF else 0.0)
        elif lo == 0:
            l, h = (1.0 / hi if hi < INF else 0.0), INF
        else:
            l, h = -INF, INF
        q = Poly({(a,): 1})
        r = new_atom('inv', (q,), l, h, False)
        T.inv[a] = r
        T.inv[r] = a
        for k in [k for k in _mm if a in k[0] and r in k[1]]:
            del _mm[k]
    return r


def pdiv(p, q):
    if q.isconst():
        c = q.const()
        if c == 0:
            raise ZeroDivisionError
        return Poly({m: v / c for m, v in p.d.items()})
    # exact scalar multiple
    if len(p.d) == len(q.d) and same_dir(p, q):
        m0 = lead(q)
        return pconst(p.d[m0] / q.d[m0])
    return pmul(p, mkinv(q))


def _unary_norm(p):
    """p = s*q with s>0 scalar and leading coefficient of q equal to +-1."""
    m0 = lead(p)
    s = abs(p.d[m0])
    return s, Poly({m: c / s for m, c in p.d.items()})


def mksqrt(p):
    if p.isconst():
        return pconst(math.sqrt(p.const()))
    s, q = _unary_norm(norm1(p))
    # even powers of nonnegative atoms
    def rng():
        lo, hi = prange(q)
        l, h = quotrange(q)
        lo, hi = max(lo, l), min(hi, h)
        return (math.sqrt(lo) if lo > 0 else 0.0), (math.sqrt(hi) if 0 <= hi < INF else INF if hi > 0 else 0.0)
    a = approx_atom('sqrt', q, None, rng)
    return Poly({(a,): math.sqrt(s)})


def mklog(p, base):
    """log10/log/log2 of p."""
    fn = {'log10': math.log10, 'log': math.log, 'log2': math.log2}[base]
    if p.isconst():
        return pconst(fn(p.const()))
    s, q = _unary_norm(norm1(p))
    sm = pmono_split(q)
    if sm and sm[0] > 0 and len(sm[1]) > 1 or (sm and sm[0] > 0 and T.kind[sm[1][0]] == 'inv'):
        r = pconst(fn(s))
        for a in sm[1]:
            if T.kind[a] == 'inv':
                ss = T.args[a][0]
                r = psub(r, mklog(ss, base))
            else:
                r = padd(r, mklog(Poly({(a,): 1}), base))
        return r
    if sm is None and all(m for m in q.d):
        # common inverse factors: (sum)*inv
        common = None
        for m in q.d:
            s_ = set(a for a in m if T.kind[a] == 'inv')
            common = s_ if common is None else common & s_
            if not common:
                break
        if common:
            r = pconst(fn(s))
            d = q.d
            for a in common:
                nd = {}
                for m, c in d.items():
                    l = list(m)
                    l.remove(a)
                    nd[tuple(l)] = c
                d = nd
                r = psub(r, mklog(T.args[a][0], base))
            return padd(r, mklog(Poly(d), base))

    def rng():
        lo, hi = prange(q)
        return (fn(lo) if lo > 0 else -INF), (fn(hi) if 0 < hi < INF else INF)
    a = approx_atom(base, q, None, rng)
    r = Poly({(a,): 1.0})
    return paddc(r, fn(s)) if s != 1 else r


def mkpow(p, e):
    """p ** e with constant exponent e."""
    if p.isconst():
        return pconst(math.pow(p.const(), e))
    if e == 0.5:
        return mksqrt(p)
    if e == int(e) and 0 < e <= 16:
        return ppowi(p, int(e))
    s, q = _unary_norm(norm1(p))

    def rng():
        lo, hi = prange(q)
        if lo < 0:
            return -INF, INF
        if e < 0:
            return (hi ** e if hi < INF else 0.0), (lo ** e if lo > 0 else INF)
        return lo ** e, (hi ** e if hi < INF else INF)
    a = approx_atom('pow', q, e, rng)
    return Poly({(a,): s ** e})


def ppowi(p, n):
    if n < 0:
        return mkinv(ppowi(p, -n))
    r = ONE
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


UNARY = {
    'sin': (math.sin, -1.0, 1.0), 'cos': (math.cos, -1.0, 1.0), 'exp': (math.exp, 0.0, INF),
    'atan': (math.atan, -math.pi / 2, math.pi / 2), 'cbrt': (lambda x: math.copysign(abs(x) ** (1 / 3), x), -INF, INF),
    'exp2': (lambda x: 2.0 ** x, 0.0, INF), 'tan': (math.tan, -INF, INF),
}


def mkunary(fn, p):
    f, lo, hi = UNARY[fn]
    p = compact(p)
    if p.isconst():
        return pconst(f(p.const()))
    odd = fn in ('sin', 'atan', 'tan', 'cbrt')
    if fn in ('sin', 'cos') or odd:
        m0 = lead(p)
        if p.d[m0] < 0:
            p = pscale(p, -1)
            neg = odd
        else:
            neg = False
    else:
        neg = False
    def rng():
        l, h = prange(p)
        if fn == 'exp':
            return (f(l) if l > -700 else 0.0), (f(h) if h < 700 else INF)
        if fn == 'sin' and -1.57 <= l and h <= 1.57:
            return f(l), f(h)
        return lo, hi
    a = approx_atom(fn, p, None, rng)
    return Poly({(a,): -1.0 if neg else 1.0})


def mkatan2(y, x):
    # normalise by the positive scale of the leading coefficient of x (or y)
    x, y = atomize(x), atomize(y)
    if x.isconst() and y.isconst():
        return pconst(math.atan2(y.const(), x.const()))
    m0 = lead(x)
    s = abs(x.d[m0]) if m0 is not None else abs(y.d[lead(y)])
    x = Poly({m: c / s for m, c in x.d.items()})
    y = Poly({m: c / s for m, c in y.d.items()})
    sup = ('atan2', tuple(sorted(y.d)), tuple(sorted(x.d)))
    lst = T.approx.setdefault(sup, [])
    for a in lst:
        yy, xx = T.args[a]
        if approx_same(y, yy) and approx_same(x, xx):
            return Poly({(a,): 1})
    a = new_atom('atan2', (y, x), -math.pi, math.pi, False)
    lst.append(a)
    return Poly({(a,): 1})


def approx_same(p, q, tol=None):
    tol = tol or CTOL
    if p.d.keys() != q.d.keys():
        return False
    for m, c in p.d.items():
        e = q.d[m]
        if c != e and abs(c - e) > tol * max(abs(c), abs(e)):
            return False
    return True


def mkrealfloor(p, kind='rfloor'):
    """floor / trunc / round of a real polynomial -> integer atom."""
    if pint(p):
        return p
    lo, hi = prange(p)
    f = {'rfloor': math.floor, 'rceil': math.ceil, 'rtrunc': math.trunc, 'rround': lambda v: math.floor(v + 0.5)}[kind]
    l = f(lo) if abs(lo) < INF else lo
    h = f(hi) if abs(hi) < INF else hi
    if l == h:
        return pconst(l)
    sup = (kind, tuple(sorted(p.d)))
    lst = T.approx.setdefault(sup, [])
    for a in lst:
        if approx_same(p, T.args[a][0]):
            return Poly({(a,): 1})
    with nofacts():
        lo, hi = prange(p)
    a = new_atom(kind, (p,), f(lo) if abs(lo) < INF else lo, f(hi) if abs(hi) < INF else hi, True)
    lst.append(a)
    return Poly({(a,): 1})


def f32bits(x):
    import struct
    return struct.unpack('<I', struct.pack('<f', x))[0]


def f64bits(x):
    import struct
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def inputs_only(p):
    return all(T.kind[a] == 'in' and T.isint[a] and not T.isbool[a] for m in p.d for a in m)


def binade_bits(p, w):
    """bit pattern of a multiple of the last place over integer inputs within one binade, else None"""
    if w != 32 or p.isconst() or not inputs_only(p):
        return None
    lo, hi = prange(p)
    if not 0 < lo <= hi < 3e38:
        return None
    e = math.frexp(lo)[1] - 1
    if e < -126 or hi >= 2.0 ** (e + 1):
        return None
    q = {m: c * 2.0 ** (23 - e) for m, c in p.d.items()}
    if any(c != int(c) for c in q.values()):
        return None
    return paddc(Poly({m: int(c) for m, c in q.items()}), ((e + 127) << 23) - (1 << 23))


def binade_value(p, w):
    """the number with a bit pattern over integer inputs that stays within one binade, else None"""
    if w != 32 or not inputs_only(p):
        return None
    lo, hi = prange(p)
    if not 0x800000 <= lo <= hi < 0x7f800000 or int(lo) >> 23 != int(hi) >> 23:
        return None
    e = (int(lo) >> 23) - 127
    q = paddc(p, (1 << 23) - ((e + 127) << 23))
    return Poly({m: c * 2.0 ** (e - 23) for m, c in q.d.items()})


def mkbits(p, w):
    """IEEE bit pattern of real p as an unsigned integer polynomial."""
    sup = ('bits', w, tuple(sorted(p.d)))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and T.kind[m[0]] == 'frombits' and T.args[m[0]][1] == w:
            return T.args[m[0]][0]
    r = binade_bits(p, w)
    if r is not None:
        return r
    lst = T.approx.setdefault(sup, [])
    for a in lst:
        if approx_same(p, T.args[a][0]):
            return Poly({(a,): 1})
    fb = f32bits if w == 32 else f64bits
    with nofacts():
        lo, hi = prange(p)
    if lo >= 0 and hi < 3e38:
        l, h = max(0, fb(lo) - 2), fb(hi) + 2
    else:
        l, h = 0, (1 << w) - 1
    a = new_atom('bits', (p, w), l, h, True)
    lst.append(a)
    return Poly({(a,): 1})


def mkfrombits(p, w):
    if p.isconst():
        import struct
        if w == 32:
            return pconst(struct.unpack('<f', struct.pack('<I', p.const()))[0])
        return pconst(struct.unpack('<d', struct.pack('<Q', p.const()))[0])
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and T.kind[m[0]] == 'bits' and T.args[m[0]][1] == w:
            return T.args[m[0]][0]
    # if-then-else of bit patterns
    bs = [a for a in p.atoms() if T.isbool[a]]
    if bs and len(bs) <= 3:
        b = bs[0]
        r = []
        for v in (1, 0):
            F.push(); F.bump(); F.learn(b, v)
            q = subst_known(p)
            r.append(mkfrombits(q, w))
            F.pop()
        return mkite(Poly({(b,): 1}), r[0], r[1])
    r = binade_value(p, w)
    if r is not None:
        return r
    key = ('frombits', p.key(), w)
    a = T.key.get(key)
    if a is None:
        with nofacts():
            lo, hi = bestrange(p)
        import struct
        if lo >= 0 and w == 32 and hi < 0x7f800000:
            l = struct.unpack('<f', struct.pack('<I', int(lo)))[0]
            h = struct.unpack('<f', struct.pack('<I', int(hi)))[0]
        else:
            l, h = -INF, INF
        a = new_atom('frombits', (p, w), l, h, False)
        T.key[key] = a
    return Poly({(a,): 1})


def mktab(table, idx, isint):
    """table[idx], table a tuple of constants; idx an integer polynomial proven in range."""
    lo, hi = bestrange(idx)
    lo = max(0, int(lo)) if lo > -INF else 0
    hi = min(len(table) - 1, int(hi)) if hi < INF else len(table) - 1
    vals = table[lo:hi + 1]
    table = table[:hi + 1]
    if vals and all(v == vals[0] for v in vals):
        return pconst(vals[0])
    if isint:
        key = ('tab', table, idx.key())
        a = T.key.get(key)
        if a is None:
            a = new_atom('tab', (idx, table), min(table), max(table), True)
            T.key[key] = a
        return Poly({(a,): 1})
    key = ('tabf', idx.key())
    for a in T.key.get(key, ()):
        t2 = T.args[a][1]
        if len(t2) == len(table) and all(abs(x - y) <= CTOL * max(abs(x), abs(y)) for x, y in zip(table, t2)):
            return Poly({(a,): 1})
    a = new_atom('tab', (idx, table), min(table), max(table), False)
    T.key.setdefault(key, []).append(a)
    return Poly({(a,): 1})


# ------------------------------------------------------------------ rebuilding under facts
class Rebuilder:
    """Re-simplify a polynomial under the current facts (memoised)."""

    def __init__(self, expand=False, limit=None):
        self.memo = {}
        self.expand = expand
        self.limit = limit

    def atom(self, a):
        r = self.memo.get(a)
        if r is None:
            r = self._atom(a)
            self.memo[a] = r
        return r

    def _atom(self, a):
        kn = F.known.get(a)
        if kn is not None:
            return ONE if kn else ZERO
        k = T.kind[a]
        args = T.args[a]
        if k == 'in':
            return Poly({(a,): 1})
        if k == 'def':
            q = self.poly(args[0])
            if self.expand:
                return q
            if q.d == args[0].d:
                return Poly({(a,): 1})
            return atomize(q)
        if k == 'bdef':
            return self.poly(args[0])
        new = [self.poly(x) if x.__class__ is Poly else x for x in args]
        if all(n is o or (n.__class__ is Poly and n.d == o.d) for n, o in zip(new, args)) and not F.known and not F.bounds:
            return Poly({(a,): 1})
        if k == 'floor':
            return mkfloor(new[0], new[1])
        if k == 'ge':
            return mkge(new[0]) if pint(new[0]) else mkcmp_real(new[0], '>=')
        if k == 'gt':
            return mkcmp_real(new[0], '>')
        if k == 'eq':
            return mkeq0(new[0]) if pint(new[0]) else mkcmp_real(new[0], '==')
        if k == 'inv':
            try:
                return mkinv(new[0])
            except ZeroDivisionError:
                return Poly({(a,): 1})
        if k == 'sqrt':
            return mksqrt(new[0]) if not new[0].isconst() or new[0].const() >= 0 else Poly({(a,): 1})
        if k in ('log10', 'log', 'log2'):
            if new[0].isconst() and new[0].const() <= 0:
                return Poly({(a,): 1})
            return mklog(new[0], k)
        if k == 'pow':
            if new[0].isconst() and new[0].const() < 0:
                return Poly({(a,): 1})
            return mkpow(new[0], new[1])
        if k in UNARY:
            return mkunary(k, new[0])
        if k == 'atan2':
            return mkatan2(new[0], new[1])
        if k in ('rfloor', 'rceil', 'rtrunc', 'rround'):
            return mkrealfloor(new[0], k)
        if k == 'bits':
            return mkbits(new[0], new[1])
        if k == 'frombits':
            return mkfrombits(new[0], new[1])
        if k == 'tab':
            return mktab(new[1], new[0], T.isint[a])
        return Poly({(a,): 1})

    def poly(self, p):
        r = ZERO
        acc = {}
        for m, c in p.d.items():
            t = Poly({(): c})
            plain = True
            for a in m:
                x = self.atom(a)
                if not (len(x.d) == 1 and x.d.get((a,)) == 1):
                    plain = False
                    break
            if plain:
                acc[m] = acc.get(m, 0) + c
                continue
            for a in m:
                t = pmul(t, self.atom(a), self.limit)
            for mm, cc in t.d.items():
                acc[mm] = acc.get(mm, 0) + cc
        return Poly({m: c for m, c in acc.items() if c != 0})


# ------------------------------------------------------------------ evaluation
def eval_atom(a, env):
    v = env.get(a)
    if v is not None:
        return v
    k = T.kind[a]
    args = T.args[a]
    if k == 'in':
        return env[a]
    if k in ('def', 'bdef'):
        v = eval_poly(args[0], env)
    elif k == 'floor':
        v = eval_poly(args[0], env) // args[1]
    elif k == 'ge':
        v = 1 if eval_poly(args[0], env) >= 0 else 0
    elif k == 'gt':
        v = 1 if eval_poly(args[0], env) > 0 else 0
    elif k == 'eq':
        v = 1 if eval_poly(args[0], env) == 0 else 0
    elif k == 'inv':
        x = eval_poly(args[0], env)
        v = 1.0 / x if x else math.nan
    elif k == 'sqrt':
        x = eval_poly(args[0], env)
        v = math.sqrt(x) if x >= 0 else math.nan
    elif k in ('log10', 'log', 'log2'):
        x = eval_poly(args[0], env)
        f = {'log10': math.log10, 'log': math.log, 'log2': math.log2}[k]
        v = f(x) if x > 0 else (-INF if x == 0 else math.nan)
    elif k == 'pow':
        x = eval_poly(args[0], env)
        if x and abs(x) <= 1e-12 * eval_size(args[0], env):
            x = 0                   # rounding of terms that cancel
        try:
            v = x ** args[1] if x >= 0 else math.nan
        except ZeroDivisionError:
            v = INF
    elif k in UNARY:
        v = UNARY[k][0](eval_poly(args[0], env))
    elif k == 'atan2':
        v = math.atan2(eval_poly(args[0], env), eval_poly(args[1], env))
    elif k == 'rfloor':
        v = math.floor(eval_poly(args[0], env))
    elif k == 'rceil':
        v = math.ceil(eval_poly(args[0], env))
    elif k == 'rtrunc':
        v = math.trunc(eval_poly(args[0], env))
    elif k == 'rround':
        v = math.floor(eval_poly(args[0], env) + 0.5)
    elif k == 'bits':
        x = eval_poly(args[0], env)
        v = f32bits(x) if args[1] == 32 else f64bits(x)
    elif k == 'frombits':
        import struct
        x = int(eval_poly(args[0], env))
        v = struct.unpack('<f', struct.pack('<I', x & 0xffffffff))[0] if args[1] == 32 else \
            struct.unpack('<d', struct.pack('<Q', x))[0]
    elif k == 'tab':
        i = int(eval_poly(args[0], env))
        v = args[1][i] if 0 <= i < len(args[1]) else math.nan
    else:
        raise Unsupported('eval ' + k)
    env[a] = v
    return v


def eval_poly(p, env):
    r = 0
    isb = T.isbool
    for m, c in p.d.items():
        t = c
        for a in m:
            # an arm that is not selected does not count, even when it has no finite value
            if isb[a] and not eval_atom(a, env):
                break
        else:
            for a in m:
                if not isb[a]:
                    t = t * eval_atom(a, env)
            r += t
    return r


def eval_size(p, env):
    """the sum of the sizes of the terms"""
    r = 0
    for m, c in p.d.items():
        t = abs(c)
        for a in m:
            if T.isbool[a] and not eval_atom(a, env):
                break
        else:
            for a in m:
                if not T.isbool[a]:
                    t = t * (eval_size(T.args[a][0], env) if T.kind[a] == 'def' else abs(eval_atom(a, env)))
            r += t
    return r


def pstr(p, n=12):
    out = []
    for m, c in sorted(p.d.items())[:n]:
        out.append(('%g' % c if c.__class__ is float else str(c)) + ''.join('*' + astr(a) for a in m))
    if len(p.d) > n:
        out.append('...(%d)' % len(p.d))
    return ' + '.join(out) or '0'


def astr(a):
    return T.name[a] or '%s#%d' % (T.kind[a], a)


# ------------------------------------------------------------------ z3
class Z3Ctx:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.log = None

    def reset_stats(self):
        self.queries = self.sat = self.unsat = self.unknown = 0
        self.time = 0.0


Z = Z3Ctx()
DEADLINE = [None]


def zreal(c):
    if c.__class__ is int:
        return z3.RealVal(c)
    f = Fraction(c)
    return z3.Q(f.numerator, f.denominator)


def zatom(a, defs, mode):
    """z3 constant for atom a, definitions collected in defs (dict atom -> list of constraints)."""
    v = T.z[a]
    if v is None:
        n = '%s_%d' % (T.name[a] or T.kind[a], a)
        if T.isbool[a]:
            v = z3.Bool(n)
        elif T.isint[a]:
            v = z3.Int(n)
        else:
            v = z3.Real(n)
        T.z[a] = v
    if a not in defs:
        defs[a] = None
        cs = []
        k = T.kind[a]
        if not T.isbool[a]:
            if T.lo[a] > -INF:
                cs.append(v >= (zreal(T.lo[a]) if not T.isint[a] else int(math.floor(T.lo[a]))))
            if T.hi[a] < INF:
                cs.append(v <= (zreal(T.hi[a]) if not T.isint[a] else int(math.ceil(T.hi[a]))))
        args = T.args[a]
        if k in ('def',):
            cs.append(v == zpoly(args[0], defs, mode, T.isint[a]))
        elif k == 'bdef':
            cs.append(v == (zpoly(args[0], defs, mode, True) == 1))
        elif k == 'floor':
            e = zpoly(args[0], defs, mode, True)
            cs.append(z3.And(args[1] * v <= e, e < args[1] * v + args[1]))
        elif k in ('ge', 'gt', 'eq'):
            isint = pint(args[0])
            e = zpoly(args[0], defs, mode, isint)
            cs.append(v == (e >= 0 if k == 'ge' else e > 0 if k == 'gt' else e == 0))
        elif k == 'inv':
            e = zpoly(args[0], defs, mode, False)
            if mode != 'lin':
                cs.append(z3.Or(e == 0, e * v == 1))
        elif k == 'sqrt':
            e = zpoly(args[0], defs, mode, False)
            cs.append(v >= 0)
            if mode != 'lin':
                cs.append(z3.Or(e < 0, v * v == e))
        elif k in ('rfloor', 'rceil', 'rtrunc', 'rround'):
            e = zpoly(args[0], defs, mode, False)
            r = z3.ToReal(v)
            if k == 'rfloor':
                cs.append(z3.And(r <= e, e < r + 1))
            elif k == 'rceil':
                cs.append(z3.And(r >= e, e > r - 1))
            elif k == 'rround':
                cs.append(z3.And(r <= e + z3.Q(1, 2), e + z3.Q(1, 2) < r + 1))
            else:
                cs.append(z3.If(e >= 0, z3.And(r <= e, e < r + 1), z3.And(r >= e, e > r - 1)))
        elif k == 'bits':
            e = zpoly(args[0], defs, mode, False)
            # monotone on the positive axis: powers of two are exact breakpoints
            if args[1] == 32:
                cs.append(z3.And(v >= 0, v < 2 ** 32))
                cs.append((e < 0) == (v >= 2 ** 31))
                for x in range(-10, 5):
                    b = f32bits(2.0 ** x)
                    cs.append(z3.Implies(e >= zreal(2.0 ** x), z3.Or(v >= b, v >= 2 ** 31)))
                    cs.append(z3.Implies(z3.And(e >= 0, e < zreal(2.0 ** x)), v <= b))
        elif k == 'tab':
            e = zpoly(args[0], defs, mode, True)
            t = args[1]
            for i, x in enumerate(t):
                cs.append(z3.Implies(e == i, v == (zreal(x) if not T.isint[a] else x)))
        # other kinds: uninterpreted, bounded
        defs[a] = cs
    return v


def zmono(m, defs, mode, isint):
    """z3 term for a monomial; in 'lin' mode products are abstracted by bounded fresh variables."""
    bs = [a for a in m if T.isbool[a]]
    ns = [a for a in m if not T.isbool[a]]
    t = None
    if ns:
        if mode == 'lin' and len(ns) > 1:
            key = ('mono', tuple(ns))
            v = defs.get(key)
            if v is None:
                allint = all(T.isint[a] for a in ns)
                n = 'm_' + '_'.join(map(str, ns))
                z = z3.Int(n) if allint else z3.Real(n)
                lo, hi = mono_range(tuple(ns))
                cs = []
                if lo > -INF:
                    cs.append(z >= (int(math.floor(lo)) if allint else zreal(float(lo))))
                if hi < INF:
                    cs.append(z <= (int(math.ceil(hi)) if allint else zreal(float(hi))))
                v = (z, cs, allint)
                defs[key] = v
            t = v[0]
            if v[2] and not isint:
                t = z3.ToReal(t)
        else:
            for a in ns:
                x = zatom(a, defs, mode)
                if T.isint[a] and not isint:
                    x = z3.ToReal(x)
                t = x if t is None else t * x
    if bs:
        cond = z3.And([zatom(a, defs, mode) for a in bs]) if len(bs) > 1 else zatom(bs[0], defs, mode)
        one = t if t is not None else (z3.IntVal(1) if isint else z3.RealVal(1))
        t = z3.If(cond, one, z3.IntVal(0) if isint else z3.RealVal(0))
    return t


def zpoly(p, defs, mode, isint):
    ts = []
    for m, c in p.d.items():
        if isint:
            k = z3.IntVal(int(c))
        else:
            k = zreal(c)
        if not m:
            ts.append(k)
        else:
            t = zmono(m, defs, mode, isint)
            ts.append(t if c == 1 else k * t)
    if not ts:
        return z3.IntVal(0) if isint else z3.RealVal(0)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def collect_defs(defs):
    cs = []
    for k, v in defs.items():
        if k.__class__ is tuple:
            cs += v[1]
        elif v:
            cs += v
    return cs


def zbool(p, defs, mode):
    d = p.d
    if p.isconst():
        return z3.BoolVal(bool(p.const()))
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1:
            return z3.And([zatom(a, defs, mode) for a in m])
    if len(d) == 2 and d.get(()) == 1:
        for m, c in d.items():
            if m and c == -1:
                return z3.Not(z3.And([zatom(a, defs, mode) for a in m]))
    return zpoly(p, defs, mode, True) == 1


def relevant_facts(deps):
    """Assertions of the path condition sharing inputs (transitively) with deps."""
    rest = list(F.asserts)
    out = []
    deps = set(deps)
    changed = True
    while changed:
        changed = False
        nr = []
        for p in rest:
            d = p.deps()
            if d & deps or not d:
                out.append(p)
                if not d <= deps:
                    deps |= d
                    changed = True
            else:
                nr.append(p)
        rest = nr
    return out, rest


import time as _time


import os as _os
SLOW = _os.environ.get('VE_SLOW')


def solve(polys, mode='auto', timeout=10000, extra=None, want_model=False, all_facts=False, seed=0):
    """Is (facts and all boolean polys and extra(defs, mode)) satisfiable?
    Returns ('sat', model) / ('unsat', None) / ('unknown', None)."""
    deps = set()
    for p in polys:
        deps |= p.deps()
    facts, rest = relevant_facts(deps)
    if all_facts:
        facts = list(F.asserts)
    modes = ['lin', 'full'] if mode == 'auto' else [mode]
    res = 'unknown'
    for md in modes:
        defs = {}
        s = z3.Solver()
        if DEADLINE[0] is not None:
            left = DEADLINE[0] - _time.time()
            if left < 0.5:
                raise Undecided('time')
            timeout = min(timeout, int(left * 1000))
        s.set('timeout', timeout)
        if seed:
            s.set('random_seed', seed)
        body = [zbool(p, defs, md) for p in facts]
        body += [zbool(p, defs, md) for p in polys]
        if extra is not None:
            body += extra(defs, md)
        s.add(collect_defs(defs))
        s.add(body)
        t0 = _time.time()
        r = s.check()
        Z.queries += 1
        Z.time += _time.time() - t0
        if SLOW and _time.time() - t0 > 1:
            import traceback
            print('SLOW %.1f' % (_time.time() - t0), md, r, [pstr(q)[:200] for q in polys], len(facts),
                  [x.name + ':%d' % x.lineno for x in traceback.extract_stack()[-7:-1]], flush=True)
        if r == z3.unsat:
            Z.unsat += 1
            return 'unsat', None
        nonlin = any(k.__class__ is tuple for k in defs) or any(
            T.kind[k] in ('inv', 'sqrt') for k in defs if k.__class__ is int)
        if r == z3.sat:
            Z.sat += 1
            if md == 'full' or not nonlin:
                return 'sat', (s.model(), defs)
            res = 'sat?'
            last = (s.model(), defs)
        else:
            Z.unknown += 1
            res = 'unknown'
            last = None
    if res == 'sat?':
        return 'unknown', last
    return 'unknown', last


def model_env(md):
    """Input assignment from a z3 model; unassigned inputs get their lower bound."""
    m, defs = md
    env = {}
    for a in range(len(T.kind)):
        if T.kind[a] != 'in':
            continue
        z = T.z[a]
        v = m.eval(z, model_completion=False) if z is not None else None
        if v is None or (z is not None and v.eq(z)):
            continue
        if z3.is_int_value(v):
            env[a] = v.as_long()
        elif z3.is_true(v):
            env[a] = 1
        elif z3.is_false(v):
            env[a] = 0
        elif z3.is_rational_value(v):
            env[a] = float(v.as_fraction())
    return env
