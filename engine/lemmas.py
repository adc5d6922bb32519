"""Deciding numeric obligations |a-b| <= tol*max(1,|a|,|b|)  and  a <= b + tol*..."""
import math
import random
import terms as t
from terms import F, Poly, psub, padd, pscale, pconst, pmul, Unsupported


def canon(p):
    """re-simplified under the path condition"""
    q = t.subst_known(p)
    if F.asserts:
        q = t.Rebuilder().poly(q)
    return q


def small(d, tol):
    lo, hi = t.prange(d)
    return lo >= -tol and hi <= tol


def drop_noise(d, tol):
    """remove terms whose whole range is negligible"""
    keep = {}
    budget = tol * 0.25
    for m, c in d.d.items():
        lo, hi = (1, 1) if not m else t.mono_range(m)
        mag = max(abs(lo), abs(hi)) * abs(c)
        if mag <= budget / 4:
            budget -= mag
            continue
        keep[m] = c
    return Poly(keep) if len(keep) != len(d.d) else d


def bools(p):
    s = set()
    for m in p.d:
        for a in m:
            if t.T.isbool[a]:
                s.add(a)
    return s


def decide(rt, kind, a, b, tol):
    r, info = cases(rt, kind, a, b, tol, 0)
    if r == 'proved' and info != 'solver' and len(a.d) + len(b.d) < 4000:
        # the negated obligation over the normalised terms goes to the solver
        def ex(defs, md):
            x, y = t.zpoly(a, defs, md, t.pint(a)), t.zpoly(b, defs, md, t.pint(b))
            e = t.zreal(float(tol))
            return [x > y + e] if kind == 'le' else [t.z3.Or(x - y > e, y - x > e)]
        try:
            z, _ = t.solve([], mode='lin', timeout=2000, all_facts=len(F.asserts) < 40, extra=ex, seed=rt.seed)
        except t.Undecided:
            z = 'unknown'
        if z == 'unsat':
            info += '+solver'
    return r, info


def cases(rt, kind, a, b, tol, depth):
    d = psub(a, b)
    if kind == 'le':
        lo, hi = t.prange(d)
        if hi <= tol:
            return 'proved', 'range'
        if depth == 0:
            nf = t.noise_upper(d)
            uv = t.univariate(d, tol)
            if uv and uv[0] == 'unsat':
                return 'proved', 'solver'
            if nf and nf[0] <= tol and t.noise_unsat(nf[2], tol):
                return 'proved', 'solver'
    else:
        if not d.d:
            return 'proved', 'identity'
        if small(d, tol):
            return 'proved', 'range'
    a2, b2 = canon(a), canon(b)
    d = psub(a2, b2)
    if kind == 'eq':
        d = drop_noise(d, tol)
        if not d.d or small(d, tol):
            return 'proved', 'canonical'
    else:
        lo, hi = t.bestrange(d) if t.pint(d) else t.prange(d)
        if hi <= tol:
            return 'proved', 'canonical'
        if logrange(d) <= tol:
            return 'proved', 'log range'
    ll = loglinear(d, tol) if kind == 'eq' else None
    if ll:
        return 'proved', 'log'
    bs = bools(d)
    if bs and depth == 0 and kind == 'eq' and any(t.T.kind[x] in ('log10', 'log', 'log2') for m in d.d for x in m):
        # the same sum may stand under two names
        try:
            e = drop_noise(t.Rebuilder(expand=True, limit=20000).poly(d), tol)
            if not e.d or small(e, tol):
                return 'proved', 'expanded'
            if len(e.d) <= len(d.d) or len(bools(e)) < len(bs):
                q = t.Rebuilder(expand=True, limit=20000)
                a2, b2, d = q.poly(a2), q.poly(b2), e
                bs = bools(d)
        except Unsupported:
            pass
    if bs and depth < 8:
        # case split on the condition that occurs most often
        cnt = {}
        for m in d.d:
            for x in m:
                if t.T.isbool[x]:
                    cnt[x] = cnt.get(x, 0) + 1
        x = max(sorted(cnt), key=lambda k: cnt[k])
        how = 'cases'
        for v in (1, 0):
            F.push()
            p = Poly({(x,): 1})
            F.add(p if v else t.bnot(p))
            try:
                st, _ = ('sat', None) if depth < 2 else t.solve([], mode='lin', timeout=3000, all_facts=True, seed=rt.seed)
                if st == 'unsat':
                    continue
                r, info = cases(rt, kind, t.subst_known(a2), t.subst_known(b2), tol, depth + 1)
                if r != 'proved':
                    return r, info
            finally:
                F.pop()
                F.bump()
        return 'proved', how
    return leaf(rt, kind, a2, b2, d, tol)


def logrange(d):
    """upper end of a sum with logarithms, their arguments bounded with the dearer ranges"""
    hi = 0.0
    for m, c in d.d.items():
        if len(m) == 1 and t.T.kind[m[0]] in ('log10', 'log', 'log2'):
            f = {'log10': math.log10, 'log': math.log, 'log2': math.log2}[t.T.kind[m[0]]]
            l, h = t.strongrange(t.T.args[m[0]][0])
            v = l if c < 0 else h
            if v <= 0 or abs(v) == math.inf:
                return math.inf
            hi += c * f(v)
        else:
            l, h = (1, 1) if not m else t.mono_range(m)
            hi += max(c * l, c * h)
    return hi


def loglinear(d, tol):
    """d = k1*log p1 - k1*log p2 + c with p1 == const * p2 in the end"""
    logs = [(m, c) for m, c in d.d.items() if len(m) == 1 and t.T.kind[m[0]] in ('log10', 'log', 'log2')]
    if len(logs) != 2 or len(d.d) > 3:
        return False
    (m1, c1), (m2, c2) = logs
    if abs(c1 + c2) > 1e-9 * abs(c1):
        return False
    rest = d.const()
    if len(d.d) == 3 and not rest:
        return False
    base = {'log10': 10.0, 'log': math.e, 'log2': 2.0}[t.T.kind[m1[0]]]
    k = base ** (rest / c1)
    p = t.T.args[m1[0]][0]
    q = t.T.args[m2[0]][0]
    # c1*(log p - log q) + rest = c1*log(k*p/q)
    R = t.Rebuilder(expand=True, limit=400000)
    pp, qq = R.poly(p), R.poly(q)
    e = psub(pscale(pp, k), qq)
    if not e.d:
        return True
    # relative size of the difference
    lo, hi = t.prange(qq)
    l, h = t.prange(e)
    if lo > 0 and max(abs(l), abs(h)) <= lo * tol * 0.9 * math.log(base) / abs(c1):
        return True
    # coefficientwise relative
    mx = {}
    for m, c in qq.d.items():
        mx[m] = abs(c)
    if all(abs(c) <= 1e-9 * mx.get(m, 0) for m, c in e.d.items()) and all(
            c >= 0 or True for c in qq.d.values()):
        # small relative to the terms: bound by sum of magnitudes over lower bound
        mag = 0.0
        for m, c in e.d.items():
            x, y = (1, 1) if not m else t.mono_range(m)
            mag += abs(c) * max(abs(x), abs(y))
        if lo > 0 and mag <= lo * tol * 0.5 / abs(c1):
            return True
        if mag <= 1e-6 and lo >= 0:
            return True
    return False


def viol(p, a, b, tol, kind, env):
    try:
        x, y = float(t.eval_poly(a, env)), float(t.eval_poly(b, env))
    except (Unsupported, KeyError, OverflowError, ZeroDivisionError):
        return False
    if x != x or y != y:
        return False
    m = tol * max(1.0, abs(x), abs(y))
    return abs(x - y) > 3 * m if kind == 'eq' else x > y + 3 * m


def leaf(rt, kind, a, b, d, tol):
    # 1. full expansion
    R = t.Rebuilder(expand=True, limit=400000)
    e = R.poly(d)
    if kind == 'eq':
        e = drop_noise(e, tol)
        if not e.d or small(e, tol):
            return 'proved', 'expanded'
        if loglinear(e, tol):
            return 'proved', 'log'
    else:
        lo, hi = t.prange(e)
        if hi <= tol:
            return 'proved', 'expanded'

    # 2. candidate points
    envs = []
    nf = t.noise_upper(d) if kind == 'le' else None
    uv = t.univariate(d, tol) if kind == 'le' else None
    def points():
        if uv and uv[0] == 'sat':
            yield dict(uv[1])
        if nf:
            rnd = random.Random(rt.seed)
            yield dict(nf[1])
            for k in range(60):
                yield {x: v if rnd.random() < 0.95 else rnd.choice((t.T.lo[x], t.T.hi[x])) for x, v in nf[1].items()}
        yield from rt.sample_envs(120)
    for env in points():
        e2 = dict(env)
        for i in rt.inputs.values():
            e2.setdefault(i, t.T.lo[i])
        if viol(d, a, b, tol, kind, dict(e2)) and rt.check_env(env, []):
            envs.append(env)
            if len(envs) >= 4:
                break

    # 3. solver
    if rt.cfg.get('trace'):
        print('ASSERTS',[(t.pstr(q)[:100],[(t.astr(z),t.pstr(t.T.args[z][0])[-400:]) for m in q.d for z in m if isinstance(t.T.args[z],tuple) and t.T.args[z] and isinstance(t.T.args[z][0],Poly)][:3]) for q in F.asserts]);print('leaf', kind, t.pstr(d)[:600], [(t.astr(x), t.pstr(t.T.args[x][0])[:400] if isinstance(t.T.args[x][0],Poly) else '') for x in list(d.deps())[:0]+list(set(z for m in d.d for z in m))][:4], flush=True)
    def ex(defs, md):
        z = t.zpoly(d, defs, md, t.pint(d))
        if kind == 'eq':
            return [t.z3.Or(z > t.zreal(float(tol)), z < t.zreal(-float(tol)))]
        return [z > t.zreal(float(tol))]
    if not envs:
        r, m = t.solve([], timeout=rt.timeout, all_facts=True, extra=ex, seed=rt.seed)
        if r == 'unsat':
            return 'proved', 'solver'
        if m is not None:
            envs.append(t.model_env(m))
        if r == 'unknown':
            ok = [x for x in envs if rt.check_env(x, [])]
            if not ok:
                return 'undecided', '%s %r' % (r, d)
            envs = ok
        # a model over uninterpreted operations need not be real
        real = []
        for x in envs:
            e2 = dict(x)
            for i in rt.inputs.values():
                e2.setdefault(i, t.T.lo[i])
            if viol(d, a, b, tol, kind, e2) and rt.check_env(x, []):
                real.append(x)
        if not real:
            return 'undecided', 'spurious model: %r' % (d,)
        envs = real
    return 'violated', envs
