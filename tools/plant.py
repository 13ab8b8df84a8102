#!/usr/bin/env python3
"""Development tool: turn a described change + demo into /verif/seeded/<id>, after confirming it in a scratch copy.

A batch file defines BUGS = [dict(id, property, edits=[(file, old, new)], crates=[...], demo='rust fn body', needs, what)]."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/plant'
DEMO = r'''#!/bin/bash
# run with cwd = the repository root, after the build
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%s
[workspace]
EOF
cd "$T"
timeout 280 cargo +nightly-2022-11-14 run -q --release --offline --config 'source.crates-io.replace-with="vp-vendor"' --config 'source.vp-vendor.directory="/opt/vp/vendor"'
'''
DEPS = {'zkstd': 'zkstd = { path = "$R/zkstd" }', 'bn254': 'bn-254 = { path = "$R/bn254" }', 'grumpkin': 'grumpkin = { path = "$R/grumpkin" }',
        'groth16': 'zkgroth16 = { path = "$R/groth16" }', 'nova': 'zknova = { path = "$R/nova" }', 'rand_core': 'rand_core = { version = "0.6", default-features = false, features = ["getrandom"] }',
        'rand': 'rand = "0.8"', 'codec': 'parity-scale-codec = { version = "2.0.0", default-features = false, features = ["derive"] }'}


def sh(cmd, cwd, timeout=900):
    r = subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return r.returncode, r.stdout


def fresh():
    if not os.path.exists(S + '/repo'):
        os.makedirs(S, exist_ok=True)
        sh('cp -a /repo %s/repo' % S, '/')
        t = open('/opt/vp/common.sh').read().replace('/repo', S + '/repo').replace('/opt/vp/ws', S + '/ws')
        open(S + '/common.sh', 'w').write(t)
    else:
        sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', S + '/repo')
    sh('git checkout -q -- .', S + '/repo')


def tests():
    sh('mkdir -p %s' % S, '/')
    rc, o = sh('. %s/common.sh; cargo test --release --workspace --all-features --no-fail-fast "${OFFLINE[@]}" -- --test-threads 8 > %s/test.log 2>&1; python3 /opt/vp/results.py %s/o.json cargo:%s/test.log' % (S, S, S, S), '/')
    b = json.load(open('/opt/vp/BASELINE.json'))
    o = json.load(open(S + '/o.json'))
    return [x for x in b['stable'] if x not in o['passed']]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        fresh()
        d = S + '/seed/' + b['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.sh', 'w').write(DEMO.replace('cd "$T"\n', b.get('pre', '') + '\ncd "$T"\n') % '\n'.join(DEPS[c] for c in b['crates']))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/main.rs', 'w').write(b['demo'].lstrip())
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what']), open(d + '/meta.json', 'w'), indent=1)
        rc0, o0 = sh('bash %s/demo.sh' % d, S + '/repo')
        if rc0 != 0:
            print(b['id'], 'DEMO FAILS ON CLEAN', o0[-1500:]); continue
        bad = False
        for f, old, new in b['edits']:
            p = S + '/repo/' + f
            t = open(p).read()
            if t.count(old) != b.get('count', 1):
                print(b['id'], 'edit matches', t.count(old), f); bad = True; break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            continue
        rc, diff = sh('git diff', S + '/repo')
        open(d + '/patch.diff', 'w').write(diff)
        rc1, o1 = sh('bash %s/demo.sh' % d, S + '/repo')
        if rc1 == 0 or 'error: could not compile' in o1 or 'error[' in o1:
            print(b['id'], 'DEMO WITH PATCH rc', rc1, o1[-1500:]); continue
        miss = tests()
        if miss:
            print(b['id'], 'TESTS FAIL', miss[:5]); continue
        # blame: only original lines
        shutil.rmtree(V + '/seeded/' + b['id'], ignore_errors=True)
        shutil.copytree(d, V + '/seeded/' + b['id'])
        print(b['id'], 'ok:', o1.strip()[-200:].replace('\n', ' | '), flush=True)
    sh('git checkout -q -- .', S + '/repo')


main()
