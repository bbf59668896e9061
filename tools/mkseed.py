#!/usr/bin/env python3
"""mkseed.py [ID...]: build /verif/seeded/<id>/ from tools/seeds.py and confirm each in a scratch copy.

For every seed: patch.diff is made from exact text replacements against /repo's HEAD; then, in a
scratch copy of /repo under /tmp/seed, the demo must pass unpatched, and with the patch the
stable tests must pass and the demo must fail.  With --check the property's quick check is run in
/repo with the patch applied (and undone)."""
import os, sys, json, subprocess, shutil, glob
V = '/verif'; S = '/tmp/seed'; R = S + '/repo'
SEEDS = {}
def seed(id, prop, edits, demo, needs, breaks, rtf=False):
    SEEDS[id] = dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, rtf=rtf)
exec(open(V + '/tools/seeds.py').read())
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
ENV['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + ENV['PATH']

DEMO_SH = '''#!/bin/bash
# Run with cwd = the repository.  Exit 0 if it behaves as the property says.
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/run"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rtforth = { path = "$repo" }
[workspace]
E
export CARGO_TARGET_DIR="$d/target"
(cd "$d" && cargo build --offline -q >"$d/log" 2>&1) || { tail -30 "$d/log"; exit 98; }
cd "$d/run" && timeout 60 "$d/target/debug/demo"
'''
PRE = '''#![allow(unused)]
use rtforth::core::Core;
use rtforth::memory::Memory;
use rtforth::mock_vm::VM;
fn new() -> VM {
    let mut vm = VM::new();
    let h = vm.find("bye").unwrap();
    vm.set_handler(h);
    vm
}
fn ev(vm: &mut VM, s: &str) { vm.set_source(s); vm.evaluate_input(); }
fn err(vm: &VM) -> isize { match vm.last_error() { Some(e) => e.into(), None => 0 } }
fn st(vm: &mut VM) -> Vec<isize> { vm.s_stack().as_slice().to_vec() }
fn out(vm: &mut VM) -> String { vm.output_buffer().clone().unwrap() }
fn recover(vm: &mut VM) { vm.clear_stacks(); vm.reset(); vm.state().instruction_pointer = 0; }
fn main() {
    let mut vm = new();
    let vm = &mut vm;
'''

# For the application: it is built with a stand-in for its terminal and driven by a script.
RTF_SH = DEMO_SH[:DEMO_SH.index('mkdir -p')] + open(V + '/tools/rtf_demo.txt').read()
RTF_PRE = open(V + '/tools/rtf_demo_pre.py').read()

def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def build(s):
    d = f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    sh('git checkout -q -- . && git clean -fdq -e target', R)
    for f, a, b in s['edits']:
        t = open(f'{R}/{f}').read()
        assert t.count(a) == 1, (s['id'], f, t.count(a), a)
        open(f'{R}/{f}', 'w').write(t.replace(a, b))
    p = sh('git diff', R).stdout
    open(d + '/patch.diff', 'w').write(p)
    if s['rtf']:
        open(d + '/demo.py', 'w').write(RTF_PRE + s['demo'].strip('\n') + '\n')
        open(d + '/demo.sh', 'w').write(RTF_SH); os.chmod(d + '/demo.sh', 0o755)
        shutil.copytree(V + '/mcterm/crossterm', d + '/stub', dirs_exist_ok=True)
        shutil.copy(V + '/mcterm/Cargo.lock', d + '/Cargo.lock')
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        return d
    open(d + '/demo.rs', 'w').write(PRE + s['demo'].strip('\n') + '\n}\n')
    open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    return d

def original_lines(s):
    """every removed line must be in the original repository"""
    for f, a, b in s['edits']:
        orig = sh(f'git show 1c26d77:{f}', R).stdout
        if a not in orig: print(f"   NOTE {s['id']}: replaced text of {f} is not verbatim in the original")

def confirm(s):
    d = build(s); ok = True
    original_lines(s)
    r = sh('timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed/log 2>&1; python3 /opt/vp/results.py /tmp/seed/out.json cargo:/tmp/seed/log', R)
    o = json.load(open('/tmp/seed/out.json')); stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    miss = [t for t in stable if t not in o['passed']]
    if miss: print('   TESTS FAIL', len(miss), miss[:4]); ok = False
    r = sh('bash ' + d + '/demo.sh', R)
    if r.returncode in (0, 98, 99): print('   DEMO WITH PATCH rc', r.returncode, r.stdout[-1500:]); ok = False
    else: print('   demo patched:', r.stdout.strip().splitlines()[1:3])
    sh('git checkout -q -- .', R)
    r = sh('bash ' + d + '/demo.sh', R)
    if r.returncode != 0: print('   DEMO UNPATCHED rc', r.returncode, r.stdout[-1500:]); ok = False
    return ok

def check(s, tier='quick'):
    assert sh('git status --porcelain', '/repo').stdout == ''
    r = sh(f"git apply {V}/seeded/{s['id']}/patch.diff", '/repo'); assert r.returncode == 0, r.stdout
    try:
        r = subprocess.run(f"./check.sh {s['prop']}", shell=True, cwd=V, env=dict(os.environ, VERIF_TIER=tier), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        sh('git checkout -q -- .', '/repo')
    v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    print('   CHECK', s['prop'], 'rc', r.returncode, v[:1] or r.stdout[-600:])
    return r.returncode == 1 and any(f"VIOLATION property={s['prop']}" in l for l in v)

if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(R): subprocess.run(['cp', '-a', '/repo', R], check=True)
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', R)
    for i in a or SEEDS:
        s = SEEDS[i]; print(i, s['prop'], flush=True)
        ok = True
        if '--only-check' not in sys.argv: ok = confirm(s)
        c = check(s) if '--check' in sys.argv or '--only-check' in sys.argv else None
        print('  ', i, 'OK' if ok else 'BAD', {None: '', True: 'caught', False: 'MISSED'}[c], flush=True)
