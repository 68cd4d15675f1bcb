#!/usr/bin/env python3
"""Plant a bug: seed.py SPEC.py ...   (SPEC defines id, property, edits=[(file,old,new)], demo (rust main.rs text), needs, breaks, deps='')
Verifies in a scratch copy that it builds, passes the stable tests, and that the demo tells it apart."""
import sys, os, subprocess, json, shutil, runpy
WT='/tmp/seedwt'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO='''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is not
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" && cp "$here/main.rs" "$w/src/main.rs" && cp "$repo/Cargo.lock" "$w/"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
doodle = { path = "$repo" }
@DEPS@
EOF
export CARGO_TARGET_DIR="$w/t"
cargo build -q --offline --manifest-path "$w/Cargo.toml" || exit 3
timeout 100 "$w/t/debug/demo"
'''
def prep():
    if not os.path.exists(WT): print(sh(f'cp -a /repo {WT}').stdout)
    sh(f'cd {WT} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
def tests():
    c='''cd /tmp/seedwt; export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never PROPTEST_RNG_SEED=1 PROPTEST_DISABLE_FAILURE_PERSISTENCE=true
timeout 840 cargo test --workspace --exclude analytic-engine --no-fail-fast --offline -- --test-threads 8 > /tmp/seedwt.log 2>&1
python3 /opt/vp/results.py /tmp/seedwt.json cargo:/tmp/seedwt.log'''
    sh(c)
    o=json.load(open('/tmp/seedwt.json')); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(b-set(o['passed']))
for spec in sys.argv[1:]:
    s=runpy.run_path(spec); i=s['id']; d=f'/verif/seeded/{i}'
    prep()
    ok=True
    for f,old,new in s['edits']:
        p=f'{WT}/{f}'; t=open(p).read()
        if t.count(old)!=1: print(i,'EDIT does not match once:',f,t.count(old)); ok=False; break
        open(p,'w').write(t.replace(old,new))
    if not ok: sh(f'cd {WT} && git checkout -q -- .'); continue
    os.makedirs(d,exist_ok=True)
    open(f'{d}/patch.diff','w').write(sh(f'cd {WT} && git diff').stdout)
    open(f'{d}/main.rs','w').write(s['demo'])
    open(f'{d}/demo.sh','w').write(DEMO.replace('@DEPS@',s.get('deps','')))
    os.chmod(f'{d}/demo.sh',0o755)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(f'{d}/meta.json','w'),indent=1)
    a=sh(f'bash {d}/demo.sh',cwd='/repo'); b=sh(f'bash {d}/demo.sh',cwd=WT)
    missing=tests()
    good=a.returncode==0 and b.returncode not in (0,3) and not missing
    print(i,'GOOD' if good else 'BAD','demo clean',a.returncode,'patched',b.returncode,'tests lost',missing[:5])
    if not good: print(a.stdout[-1500:],'----',b.stdout[-1500:]); shutil.move(d,f'/tmp/badseed-{i}') if not os.path.exists(f'/tmp/badseed-{i}') else shutil.rmtree(d)
    sh(f'cd {WT} && git checkout -q -- .')
