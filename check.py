#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [quick|thorough]: decide one property by symbolic execution of the code in /repo.

exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer."""
import fcntl
import glob
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
REPO = '/repo'
BUILD = os.path.join(HERE, '.build')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', RUSTFLAGS='')
PROCS = int(os.environ.get('VERIF_PROCS', '8'))


def log(*a):
    print(*a, flush=True)


# harnesses that need more than the default build: cargo arguments and compiler flags
VARIANTS = {'': ([], ''), 'ff': (['--features', 'ff'], ''), 'hk': (['--features', 'hk'], '--cfg av_metrics_verif')}


def build_sym(var=''):
    """LLVM IR of the harnesses together with the code of /repo, whole program"""
    tgt = os.path.join(BUILD, 'sym' + var)
    args, flags = VARIANTS[var]
    for f in glob.glob(tgt + '/release/deps/vsym-*.ll'):
        os.remove(f)
    # the library code is always compiled from the working tree, whatever the time stamps say
    for f in glob.glob(tgt + '/release/.fingerprint/av-metrics*') + glob.glob(tgt + '/release/.fingerprint/av_metrics*'):
        subprocess.run(['rm', '-rf', f])
    for f in glob.glob(tgt + '/release/.fingerprint/vsym*'):
        subprocess.run(['rm', '-rf', f])
    r = subprocess.run(['cargo', 'rustc', '--release', '--offline', '--target-dir', tgt] + args + ['--', '--emit=llvm-ir',
                        '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'],
                       cwd=os.path.join(HERE, 'harness/sym'), env=dict(ENV, RUSTFLAGS=flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ll = glob.glob(tgt + '/release/deps/vsym-*.ll')
    if r.returncode or len(ll) != 1:
        log(r.stdout[-6000:])
        log('ERROR: the harness does not build')
        sys.exit(2)
    return ll[0]


def start_native(var=''):
    """the same harnesses against the real code (threads, vector units and files included)"""
    tgt = os.path.join(BUILD, 'native' + var)
    args, flags = VARIANTS[var]
    for f in glob.glob(tgt + '/release/.fingerprint/av-metrics*') + glob.glob(tgt + '/release/.fingerprint/av_metrics*') + \
            glob.glob(tgt + '/release/.fingerprint/vnative*'):
        subprocess.run(['rm', '-rf', f])
    out = open(os.path.join(BUILD, 'native.log'), 'w')
    p = subprocess.Popen(['cargo', 'build', '--release', '--offline', '--target-dir', tgt] + args,
                         cwd=os.path.join(HERE, 'harness/native'), env=dict(ENV, RUSTFLAGS=flags), stdout=out, stderr=subprocess.STDOUT)
    return p, os.path.join(tgt, 'release/vnative')


class Native:
    def __init__(self, var=''):
        self.p, self.bin = start_native(var)
        self.runs = 0

    def wait(self):
        if self.p is not None:
            if self.p.wait():
                log(open(os.path.join(BUILD, 'native.log')).read()[-4000:])
                log('ERROR: the native harness does not build')
                sys.exit(2)
            self.p = None

    def run(self, h, path, timeout=20, threads=3):
        self.wait()
        self.runs += 1
        q = subprocess.Popen([self.bin, h, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd='/tmp',
                             start_new_session=True, env=dict(os.environ, RAYON_NUM_THREADS=str(threads)))
        try:
            out, _ = q.communicate(timeout=timeout)
            return q.returncode, out
        except subprocess.TimeoutExpired:
            os.killpg(q.pid, signal.SIGKILL)
            q.communicate()
            return 'hang', ''


def run_jobs(module, jobs, seed, limit, seen=None):
    """all jobs over PROCS forked workers; results in job order. seen(i, result) is told of every result
    and ends the whole when it returns true."""
    import job as J
    res = [None] * len(jobs)
    todo = sorted(range(len(jobs)), key=lambda i: -jobs[i].get('cost', 1))
    run = {}
    end = time.time() + limit
    while todo or run:
        while todo and len(run) < PROCS:
            i = todo.pop(0)
            if time.time() > end:
                res[i] = dict(error='not run: out of time', h=jobs[i]['h'], p=jobs[i]['p'])
                continue
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                try:
                    J.child(module, jobs[i], seed, wfd)
                finally:
                    os._exit(9)
            os.close(wfd)
            run[rfd] = [i, pid, b'', time.time() + jobs[i].get('t', 300) + 60]
        if not run:
            break
        rd, _, _ = select.select(list(run), [], [], 1.0)
        now = time.time()
        for fd in list(run):
            i, pid, buf, dl = run[fd]
            fin = False
            if fd in rd:
                b = os.read(fd, 1 << 20)
                if b:
                    run[fd][2] = buf + b
                else:
                    fin = True
            if not fin and now > dl:
                os.kill(pid, signal.SIGKILL)
                fin = True
            if fin:
                os.close(fd)
                os.waitpid(pid, 0)
                try:
                    res[i] = pickle.loads(run[fd][2])
                except Exception:
                    res[i] = dict(error='worker ended (time or memory)', h=jobs[i]['h'], p=jobs[i]['p'])
                del run[fd]
                if seen and seen(i, res[i]):
                    for q in run.values():
                        os.kill(q[1], signal.SIGKILL)
                        os.waitpid(q[1], 0)
                    for q in run:
                        os.close(q)
                    return res
    return res


DEFAULTS = dict(violations=[], undecided=[], values=[], stats={}, solver={}, functions=[], covers=[], samples=[], assumed=[], time=0)


def close(a, b, tol):
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if abs(a) > 180 and abs(b) > 90 or abs(b) > 180 and abs(a) > 90:
        return True         # the logarithm of a rounding error
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def confirm(nat, prop, rdir, n, j, r):
    """replay the models of a run against the compiled code"""
    import job as J
    for v in r['violations']:
        for k, env in enumerate(v['envs'] or [{}]):
            path = os.path.join(rdir, '%s-%d-%d.txt' % (prop, n, k))
            with open(path, 'w') as f:
                f.write(J.replay_text(j['p'], env))
            for _ in range(j.get('reps', 1)):
                rc, out = nat.run(j['h'], path, j.get('watchdog', 20), j.get('cfg', {}).get('threads', 3))
                if rc == 'hang' or (rc == 3 and 'REPRO' in out) or (rc.__class__ is int and rc < 0):
                    return v, path, rc, out
        if v.get('schedule') and j.get('trust_schedule'):
            return v, path, 'schedule', ''
    return None


def clear(out):
    """a failed replay that no rounding explains"""
    w = next((l.split() for l in out.split('\n') if l.startswith('REPRO')), None)
    if w is None:
        return False
    if len(w) == 4:
        try:
            a, b = float(w[2]), float(w[3])
        except ValueError:
            return True
        return a != a or b != b or min(a, b) < 90 and abs(a - b) > 1e-3 * max(1.0, abs(a), abs(b))
    return True


def fallback(nat, prop, rdir, n, j):
    """a run without an answer still may have a counterexample among some fixed inputs"""
    path = os.path.join(rdir, '%s-%d-x.txt' % (prop, n))
    for k in range(12):
        with open(path, 'w') as f:
            f.write('param %s\nrand %d\n' % (' '.join(map(str, j['p'])), k))
        rc, out = nat.run(j['h'], path, j.get('watchdog', 20), j.get('cfg', {}).get('threads', 3))
        if rc == 'hang' or (rc == 3 and clear(out)) or (rc.__class__ is int and rc < 0):
            return dict(kind='replay', tag='fixed input %d' % k, note=''), path, rc, out
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    import job as J
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    import props
    if prop == 'setup':
        for var in VARIANTS:
            build_sym(var)
            Native(var).wait()
        return 0
    spec = props.PROPS[prop]
    jobs = spec['jobs'](tier)
    for j in jobs:
        j.setdefault('t', 120 if tier == 'quick' else 1500)
    var = spec.get('variant', '')
    ll = build_sym(var)
    nat = Native(var)
    import ir
    module = ir.Module(ll)
    tb = time.time() - t0
    known = read_known(prop)
    rdir = os.path.join(BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    errors, undec, unconfirmed, knowns, errs, viols = [], [], [], [], set(), []
    cnt = dict(validated=0, mismatches=0)

    def seen(n, r):
        """one result: replays, translation check"""
        j = jobs[n]
        name = '%s(%s)' % (j['h'], ','.join(map(str, j['p'])))

        def defaults():
            for k, v in DEFAULTS.items():
                r.setdefault(k, v)
            if r.get('error'):
                errors.append('%s: %s' % (name, r['error']))
                errs.add(n)
                log('NO-ANSWER', errors[-1][:600])
            for u in r['undecided']:
                undec.append('%s: %s' % (name, u))
                log('UNDECIDED', undec[-1][:300])
        defaults()
        conf = confirm(nat, prop, rdir, n, j, r)
        if r.get('error') and not conf and not r['error'].startswith('not run'):
            conf = fallback(nat, prop, rdir, n, j)
        if conf is None and r['violations'] and not j.get('cfg', {}).get('noguess'):
            # the models do not fail the compiled code: again without guessed models
            r2 = run_jobs(module, [dict(j, cfg=dict(j.get('cfg', {}), noguess=True))], seed, 300)[0]
            r.clear()
            r.update(r2)
            defaults()
            conf = confirm(nat, prop, rdir, n, j, r)
        if conf is None and r['violations']:
            v = r['violations'][0]
            unconfirmed.append('%s: %s %s %s' % (name, v['kind'], v['tag'], v['note'][:200]))
            errs.add(n)
            log('UNCONFIRMED', unconfirmed[-1])
        if conf:
            v, path, rc, out = conf
            what = 'hang' if rc == 'hang' else ' '.join(l for l in out.split('\n') if 'REPRO' in l)[:200] or str(rc)
            kf = None
            if j.get('known') and j['known'][0] in known:
                # the listed finding has exactly this behaviour; anything else is new
                kj = dict(j, p=j['known'][1])
                kj.pop('known')
                kr = run_jobs(module, [kj], seed, 300)[0]
                if not kr.get('error') and not kr['violations'] and not kr['undecided']:
                    kf = j['known'][0]
            if kf:
                if kf not in knowns:
                    log('KNOWN-FINDING: property=%s %s: %s' % (prop, kf, known[kf]))
                knowns.append(kf)
            else:
                with open(path, 'a') as f:
                    f.write('# harness %s\n# %s\n' % (j['h'], what))
                log('VIOLATION property=%s replay=%s' % (prop, path))
                log('  %s %s %s: %s' % (name, v['kind'], v['tag'], what))
                viols.append(n)
        # translation check: the terms against the compiled code
        if not r['violations'] and not r.get('error'):
            for k, (env, vals) in enumerate(r['values']):
                path = os.path.join(rdir, 'val-%s-%d-%d.txt' % (prop, n, k))
                with open(path, 'w') as f:
                    f.write(J.replay_text(j['p'], env))
                rc, out = nat.run(j['h'], path, 60)
                got = [l.split() for l in out.split('\n') if l.startswith('VAL ')]
                os.remove(path)
                vt = j.get('vtol', 1e-5)
                ok = rc == 0 and len(got) == len(vals) and all(
                    g[1] == x[0] and close(float(g[2]), x[1], vt) and (len(g) < 4 or close(float(g[3]), x[2], vt))
                    for g, x in zip(got, vals))
                cnt['validated'] += 1
                if rc == 3:
                    with open(path, 'w') as f:
                        f.write(J.replay_text(j['p'], env) + '# harness %s\n# %s\n' % (j['h'], out[-300:].replace('\n', ' ')))
                    log('VIOLATION property=%s replay=%s' % (prop, path))
                    viols.append(n)
                elif not ok:
                    cnt['mismatches'] += 1
                    errs.add(n)
                    errors.append('%s: encoding and code differ: %r %r' % (name, [g[1:] for g in got][:6], vals[:6]))
                    log('NO-ANSWER', errors[-1])
        return viols and tier == 'quick'

    res = run_jobs(module, jobs, seed, 600 if tier == 'quick' else 4 * 3600, seen)
    nviol = len(viols)
    for n, r in enumerate(res):
        if r is None:
            res[n] = r = dict(error='not run: a violation ended the check' if viols else 'not run')
        if (r.get('error') or '').startswith('not run'):
            errs.add(n)
        for k, v in DEFAULTS.items():
            r.setdefault(k, v)

    def tot(k):
        return sum(r['stats'].get(k, 0) for r in res)

    def ztot(k):
        return sum(r['solver'].get(k, 0) for r in res)
    funcs = sorted(set(f for r in res for f in r['functions'] if 'av_metrics' in f or 'y4m' in f or 'v_frame' in f))
    oblig, disch = tot('obligations'), tot('discharged')
    vacn = [n for n, r in enumerate(res) if not r.get('error') and not r['violations'] and not r['covers']]
    vac = ['%s(%s)' % (jobs[n]['h'], ','.join(map(str, jobs[n]['p']))) for n in vacn]
    ev = dict(
        property=prop, tier=tier, seed=seed, level=props.LEVEL, wall_s=round(time.time() - t0, 1), violations=nviol,
        coverage=dict(
            explanation=spec['how'],
            bounds=spec['bounds'], outside=spec['outside'],
            harness_runs=len(jobs), paths=tot('paths'), merged_branches=tot('merges'), forks=tot('forks'),
            infeasible_branches_pruned=tot('pruned'), symbolic_inputs=tot('inputs'), terms=tot('atoms'),
            obligations=oblig, discharged=disch, nontrivial_obligations=tot('nontrivial'), undecided_obligations=len(undec),
            discharged_by={k[3:]: tot(k) for k in sorted(set(k for r in res for k in r['stats'] if k.startswith('by_')))},
            solver='z3 %s' % z3v(), solver_queries=ztot('queries'), solver_unsat=ztot('unsat'), solver_sat=ztot('sat'),
            solver_unknown=ztot('unknown'), solver_time_s=round(ztot('time'), 2), build_time_s=round(tb, 1),
            functions_encoded=len(funcs), functions=funcs[:120],
            native_runs=nat.runs, traces_validated_against_impl=cnt['validated'], encoding_mismatches=cnt['mismatches'],
            reachability_witnesses=sum(1 for r in res if r['covers']), without_witness=vac,
            known_findings=knowns, undecided=undec[:20], errors=errors[:20], unconfirmed_models=unconfirmed[:10],
            samples=[s for r in res for s in r['samples']][:8],
            runs=[dict(harness=j['h'], params=j['p'], what=j.get('what', ''), cfg=j.get('cfg') or {}, paths=r['stats'].get('paths'),
                       obligations=r['stats'].get('obligations'), discharged=r['stats'].get('discharged'),
                       queries=r['solver'].get('queries'), solver_time_s=r['solver'].get('time'), time_s=r['time'],
                       error=r.get('error')) for j, r in zip(jobs, res)]),
        assumptions=props.ASSUME + spec.get('assume', []) + sorted(set(a for r in res for a in r['assumed'])))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    log('%s %s: %d runs, %d/%d obligations discharged, %d paths, %d queries (%.1f s), %d validated, %.0f s' % (
        prop, tier, len(jobs), disch, oblig, tot('paths'), ztot('queries'), ztot('time'), cnt['validated'], time.time() - t0))
    if nviol:
        return 1
    if vac:
        log('NO-ANSWER: end not reached in', vac)
    # A run without an answer covers nothing and an obligation left open is not covered (both are
    # reported and stand in the evidence); they are no alarm. The check as a whole has no answer
    # when most of its runs have none.
    bad = errs | set(vacn)
    if not disch or 2 * len(bad) >= len(jobs):
        return 2
    return 0


def z3v():
    import z3
    return z3.get_version_string()


def read_known(prop):
    """id -> text of the findings listed for the property"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == 'finding:' and w[1] == 'property=' + prop:
                out[w[2]] = w[3].strip()
    return out


if __name__ == '__main__':
    sys.exit(main())
