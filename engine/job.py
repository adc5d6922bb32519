"""One symbolic run of one harness with one set of parameters; the result is a plain dictionary."""
import math
import os
import sys
import threading
import time
import traceback
import ir
import rt as rtm
import terms as t
from terms import Unsupported, Undecided


class OutOfTime(Undecided):
    pass


def envnames(env):
    """inputs of an assignment by name"""
    out = {}
    for a, v in env.items():
        if t.T.kind[a] == 'in':
            out[t.T.name[a]] = int(v)
    return out


def replay_text(params, env):
    """the file the native replay binary reads"""
    lines = ['param ' + ' '.join(map(str, params))]
    us, fills = {}, {}
    for n, v in env.items():
        q = n.split('_')
        if q[0] == 'u':
            us[int(q[1])] = v
        else:
            fills.setdefault(int(q[1]), {})[int(q[2])] = v
    if us:
        lines.append('u ' + ' '.join(str(us.get(i, 0)) for i in range(max(us) + 1)))
    for k in sorted(fills):
        d = fills[k]
        lines.append('fill %d ' % k + ' '.join('%d:%d' % (i, d[i]) for i in sorted(d) if d[i]))
    return '\n'.join(lines) + '\n'


def full(r, env):
    """every input of the run gets a value"""
    e = dict(env)
    for a in r.inputs.values():
        if a not in e:
            e[a] = t.T.lo[a]
    return e


def run(module, job, seed):
    t0 = time.time()
    cfg = dict(job.get('cfg', {}))
    cfg['seed'] = seed
    out = dict(h=job['h'], p=list(job['p']), violations=[], undecided=[], error=None, values=[])
    r = rtm.RT(module, list(job['p']), cfg)
    r.deadline = t0 + job.get('t', 300)
    t.DEADLINE[0] = r.deadline
    try:
        r.explore(job['h'])
    except Unsupported as e:
        out['error'] = 'unsupported: %s' % e
    except Undecided as e:
        out['error'] = 'undecided: %s' % e
    except OutOfTime:
        out['error'] = 'undecided: time'
    except MemoryError:
        out['error'] = 'memory'
    except Exception as e:
        tb = traceback.format_exc().strip().split('\n')
        out['error'] = 'engine: %r %s' % (e, ' | '.join(x.strip() for x in tb[-7:]))
    for v in r.violations:
        out['violations'].append(dict(kind=v.kind, tag=v.tag, note=v.note, schedule=len(r.threads) > 1,
                                      envs=[envnames(full(r, e)) for e in v.envs]))
    out['undecided'] = r.undecided[:20]
    # concrete values of the proved terms, to compare with the compiled code
    try:
        for e in r.pool()[3:3 + cfg.get('validate', 2)]:
            vals = r.concrete(e)
            if vals is not None and vals:
                out['values'].append((envnames(full(r, {a: e[a] for a in r.inputs.values()})), vals))
    except (Unsupported, KeyError, ZeroDivisionError, OverflowError, ValueError):
        pass
    out['stats'] = dict(r.stats)
    out['stats']['inputs'] = len(r.inputs)
    out['stats']['atoms'] = len(t.T.kind)
    z = t.Z
    out['solver'] = dict(queries=z.queries, time=round(z.time, 3), sat=z.sat, unsat=z.unsat, unknown=z.unknown)
    out['functions'] = sorted(set(rtm.demangle(f) for f in r.functions))
    out['covers'] = sorted(r.covers)
    out['samples'] = r.samples[:3]
    out['assumed'] = sorted(r.assumed)
    out['time'] = round(time.time() - t0, 2)
    return out


def child(module, job, seed, wfd):
    """body of a forked worker"""
    import pickle
    import resource
    mem = job.get('mem', 4 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (mem + (3 << 30), mem + (3 << 30)))
    res = []

    def body():
        try:
            res.append(run(module, job, seed))
        except BaseException as e:
            res.append(dict(h=job['h'], p=list(job['p']), error='engine: %r' % e, violations=[], undecided=[], values=[],
                            stats={}, solver={}, functions=[], covers=[], samples=[], assumed=[], time=0))
    sys.setrecursionlimit(30000)
    threading.stack_size(256 << 20)
    th = threading.Thread(target=body)
    th.start()
    th.join(job.get('t', 300) + 5)
    if th.is_alive():
        # out of time: end the run where it is
        import ctypes
        for _ in range(10):
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(th.ident), ctypes.py_object(OutOfTime))
            th.join(4)
            if not th.is_alive():
                break
    with os.fdopen(wfd, 'wb') as f:
        pickle.dump(res[0], f)
    os._exit(0)
