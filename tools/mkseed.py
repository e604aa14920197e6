#!/usr/bin/env python3
"""mkseed.py [ID...]: writes /verif/seeded/<id>/ from tools/seeds.py after confirming each change in a scratch copy."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/tools')
from seeds import SEEDS
SCR = '/tmp/seedrepo'
DEMO = '''#!/bin/bash
# cwd: the repository, built. 0: the behaviour is right, 1: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -r -f "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
dynparser = { path = "$repo" }
[workspace]
T
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
cd "$tmp"
cargo build -q --offline 2> "$tmp/log" || { cat "$tmp/log"; exit 2; }
timeout 20 "$tmp/target/debug/demo"
'''
def sh(c, cwd=None, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    ids = sys.argv[1:]
    stable = json.load(open('/opt/vp/BASELINE.json'))
    if not os.path.isdir(SCR): sh('cp -a /repo ' + SCR)
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq src', SCR)
    for s in SEEDS:
        if ids and s['id'] not in ids: continue
        sh('git checkout -q -- .', SCR)
        d = HERE + '/seeded/' + s['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/main.rs', 'w').write('#[macro_use]\nextern crate dynparser;\n' + s['demo'].lstrip())
        json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, SCR)
        ok = True
        for f, old, new in s['edits']:
            p = SCR + '/' + f; t = open(p).read()
            if t.count(old) != 1: print(s['id'], 'edit matches', t.count(old), f, repr(old)); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok: continue
        open(d + '/patch.diff', 'w').write(sh('git diff', SCR).stdout)
        r1 = sh('bash %s/demo.sh' % d, SCR)
        t = sh('RUSTUP_TOOLCHAIN=stable cargo test --workspace --no-fail-fast --offline 2>&1', SCR)
        passed = len(re.findall(r'^test .* \.\.\. ok', t.stdout, re.M)); fails = re.findall(r'^test (.*) \.\.\. FAILED', t.stdout, re.M)
        good = r0.returncode == 0 and r1.returncode != 0 and r1.returncode != 2 and not fails and passed >= 93
        print(s['id'], 'OK' if good else 'BAD', 'demo', r0.returncode, r1.returncode, 'tests', passed, fails[:3])
        if not good: print('   ', r0.stdout[-600:], '|', r1.stdout[-600:], t.stdout[-300:] if passed < 93 else '')
    sh('git checkout -q -- .', SCR)
main()
