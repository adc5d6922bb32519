#!/opt/veriftools/pyvenv/bin/python3
"""try.py [-b] [-t SEC] [-n] "harness p0 p1 ..." ...: run single harness jobs and print their results (-b: rebuild first, -n: replay)"""
import glob
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + '/engine']
import check
a = sys.argv[1:]
t = 60
var = ''
if '-x' in a:
    i = a.index('-x')
    var = a[i + 1]
    del a[i:i + 2]
nat = None
if '-b' in a:
    a.remove('-b')
    check.build_sym(var)
if '-n' in a:
    a.remove('-n')
    nat = check.Native(var)
    nat.wait()
cfg = {}
if '-c' in a:
    i = a.index('-c')
    cfg = eval(a[i + 1])
    del a[i:i + 2]
if '-t' in a:
    i = a.index('-t')
    t = int(a[i + 1])
    del a[i:i + 2]
import ir
import job as J
m = ir.Module(glob.glob(check.BUILD + '/sym' + var + '/release/deps/vsym-*.ll')[0])
jobs = []
for s in a:
    w = s.split()
    jobs.append(dict(h=w[0], p=[int(x) for x in w[1:]], t=t, cfg=dict(cfg)))
for j, r in zip(jobs, check.run_jobs(m, jobs, 1, 100000)):
    for k, v in check.DEFAULTS.items():
        r.setdefault(k, v)
    s = r['stats']
    print(j['h'], *j['p'], '| %.1fs' % r['time'], 'err=%s' % r['error'] if r.get('error') else 'ok', '%s/%s' % (s.get('discharged'), s.get('obligations')),
          'paths', s.get('paths'), 'merges', s.get('merges'), 'q', r['solver'].get('queries'), r['solver'].get('time'), {k[3:]: v for k, v in s.items() if k.startswith('by_')}, r['covers'])
    for u in r['undecided']:
        print('   UNDEC', u[:300])
    for k, v in enumerate(r['violations']):
        print('   VIOL', v['kind'], v['tag'], v['note'][:300], len(v['envs']))
        if nat:
            for e in v['envs'] or [{}]:
                open('/tmp/rp.txt', 'w').write(J.replay_text(j['p'], e))
                print('      native', nat.run(j['h'], '/tmp/rp.txt'))
    for e, vals in r['values'][:1]:
        if nat:
            open('/tmp/rp.txt', 'w').write(J.replay_text(j['p'], e))
            print('   val', vals[:3], nat.run(j['h'], '/tmp/rp.txt'))
