#!/usr/bin/env python3
"""Builds seeded/<id>/ from a bug description and confirms it in a scratch copy of /repo.

usage: lib.py FILE.py [ID ...]     FILE.py defines BUGS = [dict(...), ...]
"""
import importlib.util, json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
import threading, queue
SEED = '/verif/seeded'
DEMO = '''#!/bin/bash
# cwd: the repository. Exits 0 when the behaviour is right, 1 when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=/tmp/rpds-demo-@ID@
mkdir -p "$dir/src"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
rpds = { path = "$repo", features = [@FEAT@] }
@DEPS@
[workspace]
EOF
cp "$here/main.rs" "$dir/src/main.rs"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target"
cd "$dir" && timeout 250 cargo run -q --offline
rc=$?
rm -rf /tmp/rpds-demo-@ID@
[ $rc -eq 0 ] || exit 1
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(b, wd):
    sh(f'git -C {wd} checkout -q -- .')
    for f, old, new in b['edits']:
        p = os.path.join(wd, f); s = open(p).read()
        if s.count(old) != 1: return f'edit matches {s.count(old)} times in {f}: {old[:60]!r}'
        open(p, 'w').write(s.replace(old, new))
    diff = sh(f'git -C {wd} diff').stdout
    d = f'{SEED}/{b["id"]}'; os.makedirs(d, exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/main.rs','w').write(b['main'].lstrip('\n'))
    open(d+'/demo.sh','w').write(DEMO.replace('@ID@', b['id']).replace('@FEAT@', ', '.join(f'"{x}"' for x in b.get('features', []))).replace('@DEPS@', b.get('deps','')))
    os.chmod(d+'/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d+'/meta.json','w'), indent=1)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    try:
        t = subprocess.run('cargo test --workspace --all-features --no-fail-fast --offline --lib --tests --doc -- --test-threads 8' if False else 'cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8', shell=True, cwd=wd, env=env, capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired: return 'tests time out'
    if t.returncode != 0:
        bad = [l for l in (t.stdout+t.stderr).split('\n') if 'FAILED' in l or 'error' in l or 'warning: unused' in l]
        return 'tests fail: ' + '; '.join(bad[:4])
    r = sh('cargo check --lib --no-default-features --offline', cwd=wd, env=env)
    if r.returncode: return 'no_std check fails: '+r.stderr[-300:]
    try: r = sh(f'bash {d}/demo.sh', cwd=wd, env=env, timeout=300)
    except subprocess.TimeoutExpired: return 'demo hangs'
    if r.returncode == 0: return 'demo passes with the patch'
    msg = (r.stderr.strip().split('\n') or [''])
    if any('could not compile' in l for l in msg): return 'demo does not compile: ' + r.stderr[:1500]
    sh(f'git -C {wd} checkout -q -- .')
    r2 = sh(f'bash {d}/demo.sh', cwd=wd, env=env, timeout=300)
    if r2.returncode != 0: return 'demo fails unpatched: '+r2.stderr[-800:]
    return 'OK   [' + ' '.join(msg)[:120] + ']'
def main():
    spec = importlib.util.spec_from_file_location('b', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    bugs = [b for b in m.BUGS if not sys.argv[2:] or b['id'] in sys.argv[2:]]
    N = 4; q = queue.Queue()
    for i in range(N):
        wd = f'/tmp/plant{i}/repo'; shutil.rmtree(f'/tmp/plant{i}', ignore_errors=True); os.makedirs(f'/tmp/plant{i}')
        subprocess.run(['cp','-a','/repo',wd], check=True); q.put(wd)
    def one(b):
        wd = q.get()
        try: r = make(b, wd)
        except Exception as e: r = 'EXC '+repr(e)
        finally: q.put(wd)
        if not r.startswith('OK'): shutil.rmtree(f'{SEED}/{b["id"]}', ignore_errors=True)
        print(f'{b["id"]:32s} {b["prop"]} {r}', flush=True)
    with ThreadPoolExecutor(N) as ex: list(ex.map(one, bugs))
    for i in range(N): shutil.rmtree(f'/tmp/plant{i}', ignore_errors=True)
main()
