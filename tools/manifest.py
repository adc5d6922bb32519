#!/opt/veriftools/pyvenv/bin/python3
"""writes MANIFEST.json from engine/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/engine')
import props
ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
chk = []
for i in ids:
    if i not in props.PROPS:
        continue
    p = props.PROPS[i]
    chk.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                    evidence_file='evidence/%s.json' % i, technique=p.get('technique', 'symbolic execution of the LLVM IR with z3'), level=props.LEVEL,
                    level_note=p.get('note', '') or ('Decided for %s. Not covered: %s. Trusts: rustc code generation to IR, the IR interpreter '
                    '(checked against the compiled code on concrete inputs on every run) and z3.' % (p['bounds'], p['outside']))))
na = [dict(property=i, reason=props.NA.get(i, 'machinery not built yet')) for i in ids if i not in props.PROPS]
m = dict(version=1, setup_cmd='python3-vt check.py setup', checks=chk, not_applicable=na)
m['hooks'] = dict(guard='cfg av_metrics_verif', enable="RUSTFLAGS='--cfg av_metrics_verif' (variant hk of check.py, used by C24 and C25 only)",
                  source_commits=['4bdbfd2'])
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(chk), 'claimed', [x['property'] for x in na])
