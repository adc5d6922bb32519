"""Candidate models for an obligation the solver has not settled: the encoded terms are evaluated on many inputs at once.
What is found here is only a candidate; it counts when the compiled code fails on it as well."""
import numpy as np
import terms as t
from terms import Poly, Unsupported

F = t.F


class Vec:
    def __init__(self, n, pick):
        self.n = n
        self.pick = pick
        self.c = {}

    def poly(self, p):
        T = t.T
        r = 0
        for m, c in p.d.items():
            mask = None
            x = c
            for a in m:
                if T.isbool[a]:
                    v = self.atom(a) != 0
                    mask = v if mask is None else mask & v
            if mask is not None and not mask.any():
                continue
            for a in m:
                if not T.isbool[a]:
                    x = x * self.atom(a)
            if mask is not None:
                x = np.where(mask, x, 0)
            r = r + x
        if r.__class__ is not np.ndarray:
            r = np.full(self.n, r)
        return r

    def atom(self, a):
        v = self.c.get(a)
        if v is None:
            v = self._atom(a)
            if v.__class__ is not np.ndarray:
                v = np.full(self.n, v)
            self.c[a] = v
        return v

    def _atom(self, a):
        T = t.T
        k, args = T.kind[a], T.args[a]
        if k == 'in':
            return self.pick(a)
        x = self.poly(args[0]) if args and args[0].__class__ is Poly else None
        if k in ('def', 'bdef'):
            return x
        if k == 'floor':
            return x // args[1]
        if k == 'ge':
            return (x >= 0).astype(np.int64)
        if k == 'gt':
            return (x > 0).astype(np.int64)
        if k == 'eq':
            return (x == 0).astype(np.int64)
        if k in ('rfloor', 'rceil', 'rtrunc', 'rround'):
            x = x.astype(float)
            y = np.floor(x + 0.5) if k == 'rround' else {'rfloor': np.floor, 'rceil': np.ceil, 'rtrunc': np.trunc}[k](x)
            return np.nan_to_num(y, nan=0, posinf=0, neginf=0).astype(np.int64) if abs(T.lo[a]) < 2 ** 60 and abs(T.hi[a]) < 2 ** 60 else y
        if k == 'inv':
            x = x.astype(float)
            return np.where(x == 0, np.nan, 1.0 / x)
        if k == 'sqrt':
            return np.sqrt(x.astype(float))
        if k in ('log10', 'log', 'log2'):
            return {'log10': np.log10, 'log': np.log, 'log2': np.log2}[k](x.astype(float))
        if k == 'pow':
            x = x.astype(float)
            return np.where(x >= 0, np.power(np.abs(x), args[1]), np.nan)
        if k == 'atan2':
            return np.arctan2(x.astype(float), self.poly(args[1]).astype(float))
        if k in t.UNARY:
            f = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'exp': np.exp, 'atan': np.arctan}.get(k)
            if f is None:
                g = t.UNARY[k][0]
                f = np.vectorize(lambda z: g(float(z)), otypes=[float])
            return f(x.astype(float))
        if k == 'bits':
            if args[1] == 32:
                return x.astype(np.float32).view(np.uint32).astype(np.int64)
            return x.astype(float).view(np.int64)
        if k == 'frombits':
            x = x.astype(np.int64)
            if args[1] == 32:
                return (x & 0xffffffff).astype(np.uint32).view(np.float32).astype(float)
            return x.view(float)
        if k == 'tab':
            tb = np.array([float(z) for z in args[1]]) if not T.isint[a] else np.array(args[1], dtype=np.int64)
            i = x.astype(np.int64)
            ok = (i >= 0) & (i < len(tb))
            return np.where(ok, tb[np.clip(i, 0, len(tb) - 1)], np.nan if not T.isint[a] else 0)
        raise Unsupported('eval ' + k)


def search(rt, kind, a, b, tol, first, count):
    """inputs of the run among count fixed ones on which the terms differ clearly"""
    ins = list(rt.inputs.values())
    T = t.T
    count = max(24, min(count, 400000 // (len(ins) + 1), 50000000 // (len(T.kind) + 1)))
    import rt as rtm
    envs = [rtm.PoolEnv(rt.seed, k) for k in range(first, first + count)]
    v = Vec(count, lambda x: np.array([e[x] for e in envs], dtype=np.int64))
    with np.errstate(all='ignore'):
        try:
            x, y = v.poly(a).astype(float), v.poly(b).astype(float)
            m = 12 * tol * np.maximum(1.0, np.maximum(np.abs(x), np.abs(y)))
            bad = np.abs(x - y) > m if kind == 'eq' else x > y + m
            bad &= ~(np.isnan(x) | np.isnan(y))
            if bad.any():
                for p in F.asserts:
                    bad &= v.poly(p) != 0
        except (Unsupported, KeyError, OverflowError, ZeroDivisionError, TypeError):
            return []
    out = []
    # a difference may be the logarithm of a rounding error: the smallest ones first
    w = sorted(np.nonzero(bad)[0], key=lambda i: (abs(x[i] - y[i]), i))
    for i in w[:3] + w[-1:]:
        out.append({x: int(envs[i][x]) for x in ins})
    return out
