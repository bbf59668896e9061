#!/usr/bin/env python3
"""rare.py COUNT SEED: make each primitive do nothing under one rare condition (deep stacks, another task, a large
dictionary, ...) in a scratch copy of /repo, and run the stable tests and the quick checks on each; the survivors show
contexts the checks do not reach.  One build: the change is chosen by the environment.
A development tool only: no check uses it.  Results: /tmp/mut/rare.txt"""
import os, re, sys, json, subprocess, random, time, collections
B, D = '/tmp/mut', '/tmp/mut/R'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
ENV['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + ENV['PATH']
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
CONDS = ['vm.s_stack().len() > 30', 'vm.r_stack().len() > 30', 'vm.f_stack().len() > 12', 'vm.c_stack().len() > 12', 'vm.current_task() == 3', 'vm.state().source_index > 60',
         'vm.wordlist().len() > 700', 'base == 16', 'vm.s_stack().len() == 7', 'vm.s_stack().len() == 0 && vm.f_stack().len() == 3', 'errors > 3', 'calls % 500 == 499',
         'here % 8 == 3', 'here - start > (limit - start) / 2', 'vm.state().source_id > 2', 'vm.sources().len() > 3', 'vm.input_buffer().as_ref().map_or(false, |b| b.len() > 100)',
         'vm.wordlist().len() % 64 == 63', 'vm.data_space().here() % 1024 < 16', 'vm.state().is_compiling && vm.c_stack().len() > 3', 'vm.f_stack().len() == 1 && vm.s_stack().len() == 3',
         'vm.r_stack().len() % 8 == 5', 'vm.state().instruction_pointer > vm.data_space().start() + 60000']
RARE = '''
pub mod rare {
    use core::Core;
    use memory::Memory;
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    pub static ERRORS: AtomicUsize = AtomicUsize::new(0);
    static CALLS: AtomicUsize = AtomicUsize::new(0);
    pub static SEL: AtomicUsize = AtomicUsize::new(usize::MAX);
    static COND: AtomicUsize = AtomicUsize::new(usize::MAX);
    #[cold]
    fn init() {
        let g = |n: &str| std::env::var(n).ok().and_then(|x| x.parse::<usize>().ok());
        COND.store(g("RARE_COND").unwrap_or(0), Relaxed);
        SEL.store(g("RARE_SEL").unwrap_or(0), Relaxed);
    }
    pub fn on(id: usize) -> bool {
        if SEL.load(Relaxed) == usize::MAX { init(); }
        SEL.load(Relaxed) == id
    }
    #[allow(unused)]
    pub fn hit<V: Core + ?Sized>(vm: &mut V) -> bool {
        let calls = CALLS.fetch_add(1, Relaxed);
        let errors = ERRORS.load(Relaxed);
        let b = vm.data_space().system_variables().base_addr();
        let (here, start, limit) = (vm.data_space().here(), vm.data_space().start(), vm.data_space().limit());
        let base = if b != 0 && b + 8 <= limit { unsafe { vm.data_space().get_isize(b) } } else { 0 };
        match COND.load(Relaxed) {
%s
            _ => false,
        }
    }
}
''' % '\n'.join(f'            {k} => {c},' for k, c in enumerate(CONDS))

def sh(c, cwd, t=900, **k):
    try: return subprocess.run(c, shell=True, cwd=cwd, env=dict(ENV, **k), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
    except subprocess.TimeoutExpired: return None

def prepare():
    sites = []
    sh(f'rm -rf {D}; mkdir -p {D}; cp -a /repo {D}/repo; mkdir {D}/verif; cp -a /verif/mc /verif/mcterm /verif/check.sh /verif/known_findings.txt {D}/verif/', '/')
    sh(f"grep -rlE '/repo|/verif' {D}/verif --include=*.rs --include=*.toml --include=check.sh | xargs sed -i 's#/verif#{D}/VV#g; s#/repo#{D}/repo#g; s#/VV#/verif#g'", '/')
    for f in ['core', 'float', 'facility', 'file_access', 'loader', 'output', 'tools', 'units', 'env', 'exception']:
        p = f'{D}/repo/src/{f}.rs'
        if not os.path.exists(p): continue
        out, intr = [], False
        for l in open(p).read().split('\n'):
            if re.match(r'pub trait \w+.*(Core|\{)', l): intr = True
            if l == '}': intr = False
            out.append(l)
            m = re.match(r'    fn (\w+)\(&mut self\) *\{$', l)
            if m and intr and not m.group(1).startswith('add_') and m.group(1) not in ('reset', 'initialize', 'load_core_fth'):
                sites.append((f, m.group(1)))
                out.append(f'        if ::rare::on({len(sites)}) && ::rare::hit(self) {{ return; }}')
            if re.match(r'    fn abort_with\(&mut self', l):
                out.append('        ::rare::ERRORS.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed);')
        open(p, 'w').write('\n'.join(out))
    open(f'{D}/repo/src/lib.rs', 'a').write(RARE)
    json.dump(sites, open(f'{D}/sites.json', 'w'))
    q = f'{D}/repo/src/core.rs'; t = open(q).read(); open(q, 'w').write(t.replace('    const fn len(&self)', '    pub const fn len(&self)').replace('    fn len(&self)', '    pub fn len(&self)'))
    for c in ('cargo test --workspace --no-run --offline', ):
        x = sh(c, D + '/repo', 900)
        print(x.stdout[-3000:])
        if x.returncode: sys.exit(1)
    x = sh('./check.sh build', D + '/verif', 900)
    print(x.stdout[-2000:])

if __name__ == '__main__':
    count, seed = int(sys.argv[1]), int(sys.argv[2])
    if not os.path.exists(f'{D}/sites.json'): prepare()
    sites = json.load(open(f'{D}/sites.json'))
    todo = [(s, c) for s in range(len(sites)) for c in range(len(CONDS))]
    random.Random(seed).shuffle(todo)
    print(len(sites), 'sites', len(todo), 'changes')
    seen = open(B + '/rare.txt').read() if os.path.exists(B + '/rare.txt') else ''
    kills = collections.Counter()
    done = 0
    for s, c in todo:
        if done >= count: break
        tag = f'{sites[s][0]}.{sites[s][1]} when {CONDS[c]}'
        if tag in seen: continue
        done += 1
        v = dict(RARE_SEL=str(s + 1), RARE_COND=str(c))
        sh('timeout 200 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > ../test.log 2>&1; python3 /opt/vp/results.py ../out.json cargo:../test.log', D + '/repo', **v)
        try: o = json.load(open(D + '/out.json'))['passed']
        except Exception: o = []
        res, t0 = None, time.time()
        if any(x not in o for x in STABLE): res = 'TESTS'
        else:
            rel = {'file_access': 'C21', 'loader': 'C22', 'tools': 'C26 C20', 'facility': 'C20 C19 C17 C18', 'float': 'C23', 'output': 'C15 C26'}.get(sites[s][0], '')
            al = ['C%02d' % k for k in range(1, 32)]
            for k in sorted(al, key=lambda k: (k not in rel.split() + ['C31'], -kills[k], k in ('C28', 'C29', 'C30'))):
                y = sh(f'./check.sh {k}', D + '/verif', VERIF_TIER='quick', **v)
                if y is None or y.returncode not in (0, 1): res = f'{k} rc {y and y.returncode}'; break
                if y.returncode == 1: res = k; kills[k] += 1; break
        line = f'{res or "SURVIVED":9s}{tag}   [{time.time()-t0:.0f} s]'
        print(line, flush=True)
        open(B + '/rare.txt', 'a').write(line + '\n')
