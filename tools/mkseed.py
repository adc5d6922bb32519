#!/usr/bin/env python3
"""mkseed.py ID [edit]: (re)create /verif/seeded/ID/patch.diff from a python edit and confirm the change.

Reads /tmp/seeds/ID.py, which defines FILE, OLD, NEW (or EDITS), META, MAIN (source of the demonstration)."""
import json, os, subprocess, sys, shutil
sid = sys.argv[1]
ns = {}
exec(open('/tmp/seeds/%s.py' % sid).read(), ns)
W = '/tmp/seedwork'
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(W):
    sh('cp -a /repo ' + W)
sh('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (W, W))
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
edits = ns.get('EDITS') or [(ns['FILE'], ns['OLD'], ns['NEW'])]
for f, o, n in edits:
    p = W + '/' + f
    s = open(p).read()
    assert s.count(o) == 1, (f, s.count(o), o)
    open(p, 'w').write(s.replace(o, n))
diff = sh('git -C %s diff' % W).stdout
open(d + '/patch.diff', 'w').write(diff)
json.dump(ns['META'], open(d + '/meta.json', 'w'), indent=1)
if 'FILES' in ns:
    for f, c in ns['FILES'].items():
        open(d + '/' + f, 'w').write(c)
for f, c in ns.get('BIN', {}).items():
    shutil.copyfile(c, d + '/' + f)
open(d + '/main.rs', 'w').write(ns['MAIN'])
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in the repository; 0: behaves, otherwise the demonstrated failure
d=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$d/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/"
cp "$d"/*.nut "$t/" 2>/dev/null
cat > "$t/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
av-metrics = { path = "$repo/av_metrics" }
av-metrics-decoders = { path = "$repo/av_metrics_decoders", default-features = false, features = [@F@] }
[profile.dev]
opt-level = 1
overflow-checks = true
[patch.crates-io]
av-metrics = { path = "$repo/av_metrics" }
[workspace]
EOT
cd "$t" && @R@CARGO_TARGET_DIR="$t/target" cargo build -q --offline && RAYON_NUM_THREADS=4 timeout 60 "$t/target/debug/demo" "$t"
'''.replace('@F@', ns.get('FEATURES', '"y4m"')).replace('@R@', ns.get('ENV', '')))
os.chmod(d + '/demo.sh', 0o755)
# blame: every removed line must be original
ok = True
if 'nobuild' not in sys.argv:
    r = sh('cd %s && bash %s/demo.sh' % (W, d)); print('demo patched rc', r.returncode, r.stdout[-400:]); ok &= r.returncode != 0
    r = sh('cd /repo && bash %s/demo.sh' % d); print('demo clean rc', r.returncode, r.stdout[-400:]); ok &= r.returncode == 0
    env = open('/opt/vp/env.sh').read()
    r = sh('cd %s && cargo test --workspace --offline 2>&1 | grep -E "^test result|FAILED|panicked|error" ' % W); print(r.stdout)
    ok &= 'FAILED' not in r.stdout and 'error' not in r.stdout and 'test result: ok' in r.stdout
base = sh('git -C %s diff -U0' % W).stdout
for f, o, n in edits:
    bl = sh('cd /repo && git blame -s %s' % f).stdout.split('\n')
    for l in o.split('\n'):
        l = l.strip()
        if not l or l in n: continue
        for b in bl:
            if not b.startswith('^') and l == b.split(') ', 1)[-1].strip():
                print('  touches own line:', l)
print('OK' if ok else 'NOT OK', sid)
