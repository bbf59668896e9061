#!/usr/bin/env python3
"""narrow.py COUNT SEED: values that pass through one place of /repo's code (a cell popped or pushed, a length, a cast)
lose something there: their high bits, their sign, their lowest bit, their last value before the limit and so on.  All
places are built into one scratch copy of /repo and one is chosen by the environment.  Runs the stable tests and the
quick checks on each; the survivors show values the checks do not reach.
A development tool only: no check uses it.  Results: /tmp/mut/narrow.txt"""
import os, re, sys, json, subprocess, random, time, collections
B, D = '/tmp/mut', '/tmp/mut/N'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
ENV['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + ENV['PATH']
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
MODES = ['byte', '16 bits', '32 bits', 'at most 1000', 'lowest bit lost above 4096', 'limits off by one', 'one more at multiples of 256', 'at most 63', 'negative is 0', 'absolute', 'negative off by one', 'off by one from 2^40 on']
FMODES = ['f32', '-0 is 0', 'NaN is 0', 'inf is MAX', 'denormal is 0', 'integer above 1e15', 'negative is coarse', 'last bit lost', 'below 1e-10 is 0', 'above 1e300 is inf']
RARE = '''
pub mod rare {
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    pub static SEL: AtomicUsize = AtomicUsize::new(usize::MAX);
    static MODE: AtomicUsize = AtomicUsize::new(0);
    static COMP: AtomicUsize = AtomicUsize::new(0);
    #[cold]
    fn init() {
        let g = |n: &str| std::env::var(n).ok().and_then(|x| x.parse::<usize>().ok());
        MODE.store(g("RARE_MODE").unwrap_or(0), Relaxed);
        COMP.store(g("RARE_COMP").unwrap_or(0), Relaxed);
        SEL.store(g("RARE_SEL").unwrap_or(0), Relaxed);
    }
    fn on(id: usize) -> bool {
        if SEL.load(Relaxed) == usize::MAX { init(); }
        SEL.load(Relaxed) == id
    }
    pub struct M(pub usize);
    pub trait Nw: Sized { fn nw(self) -> Self; }
    impl Nw for isize { fn nw(self) -> isize { let x = self; match MODE.load(Relaxed) {
        0 => x as u8 as isize, 1 => x as i16 as isize, 2 => x as i32 as isize, 3 => x.min(1000), 4 => if x > 4096 { x & !1 } else { x },
        5 => if x == isize::MIN { x + 1 } else if x == isize::MAX { x - 1 } else { x }, 6 => if x != 0 && x & 255 == 0 { x + 1 } else { x },
        7 => x.min(63), 8 => x.max(0), 9 => x.wrapping_abs(), 10 => if x < -1 { x.wrapping_add(1) } else { x }, 11 => if x > 1 << 40 { x - 1 } else { x }, _ => x } } }
    impl Nw for usize { fn nw(self) -> usize { let x = self; match MODE.load(Relaxed) {
        0 => x as u8 as usize, 1 => x as u16 as usize, 2 => x as u32 as usize, 3 => x.min(1000), 4 => if x > 4096 { x & !1 } else { x },
        5 => if x == usize::MAX { x - 1 } else if x == isize::MAX as usize { x - 1 } else { x }, 6 => if x != 0 && x & 255 == 0 { x + 1 } else { x },
        7 => x.min(63), 8 => if (x as isize) < 0 { 0 } else { x }, 9 => (x as isize).wrapping_abs() as usize, 10 => if (x as isize) < -1 { x.wrapping_add(1) } else { x }, 11 => if x > 1 << 40 { x - 1 } else { x }, _ => x } } }
    impl Nw for u8 { fn nw(self) -> u8 { let x = self; match MODE.load(Relaxed) {
        0 => x & 127, 1 => x & 63, 2 => x & 31, 3 => x.min(100), 4 => if x > 40 { x & !1 } else { x }, 5 => if x == 255 { 254 } else { x }, 6 => if x == 128 { 129 } else { x },
        7 => x.min(63), 8 => if x > 127 { 0 } else { x }, 9 => if x > 127 { 256u16.wrapping_sub(x as u16) as u8 } else { x }, 10 => if x > 127 { x.wrapping_add(1) } else { x }, 11 => if x > 60 { x - 1 } else { x }, _ => x } } }
    impl Nw for f64 { fn nw(self) -> f64 { let x = self; match MODE.load(Relaxed) {
        0 => x as f32 as f64, 1 => if x == 0.0 { 0.0 } else { x }, 2 => if x.is_nan() { 0.0 } else { x }, 3 => if x.is_infinite() { f64::MAX.copysign(x) } else { x },
        4 => if x.abs() < 2.3e-308 { 0.0 } else { x }, 5 => if x.abs() > 1e15 { x as i64 as f64 } else { x }, 6 => if x < 0.0 { (x * 1024.0).round() / 1024.0 } else { x },
        7 => f64::from_bits(x.to_bits() & !1), 8 => if x.abs() < 1e-10 { 0.0 } else { x }, 9 => if x.abs() > 1e300 { f64::INFINITY.copysign(x) } else { x }, _ => x } } }
    impl<A: Nw, C: Nw> Nw for (A, C) { fn nw(self) -> Self { if COMP.load(Relaxed) % 2 == 0 { (self.0.nw(), self.1) } else { (self.0, self.1.nw()) } } }
    impl<A: Nw, C: Nw, E: Nw> Nw for (A, C, E) { fn nw(self) -> Self { match COMP.load(Relaxed) % 3 { 0 => (self.0.nw(), self.1, self.2), 1 => (self.0, self.1.nw(), self.2), _ => (self.0, self.1, self.2.nw()) } } }
    #[inline]
    pub fn n<T: Nw + Copy + PartialEq>(id: usize, x: T) -> T { if on(id) { let y = x.nw(); if y != x && !MARKED.swap(true, Relaxed) { let _ = std::env::var("RARE_MARK").map(|p| std::fs::write(p, "x")); } y } else { x } }
    static MARKED: ::std::sync::atomic::AtomicBool = ::std::sync::atomic::AtomicBool::new(false);
    impl ::std::ops::Rem<M> for usize { type Output = usize; #[inline] fn rem(self, m: M) -> usize { n(m.0, self) } }
    impl ::std::ops::Rem<M> for isize { type Output = isize; #[inline] fn rem(self, m: M) -> isize { n(m.0, self) } }
    impl ::std::ops::Rem<M> for u8 { type Output = u8; #[inline] fn rem(self, m: M) -> u8 { n(m.0, self) } }
    impl ::std::ops::Rem<M> for f64 { type Output = f64; #[inline] fn rem(self, m: M) -> f64 { n(m.0, self) } }
}
'''

def sh(c, cwd, t=900, **k):
    try: return subprocess.run(c, shell=True, cwd=cwd, env=dict(ENV, **k), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
    except subprocess.TimeoutExpired: return None

def close(s, i):
    d = 0
    for k in range(i, len(s)):
        if s[k] in '([{': d += 1
        if s[k] in ')]}':
            d -= 1
            if d == 0: return k
    return -1

def prepare():
    sh(f'rm -rf {D}; mkdir -p {D}; cp -a /repo {D}/repo; mkdir {D}/verif; cp -a /verif/mc /verif/mcterm /verif/check.sh /verif/known_findings.txt {D}/verif/', '/')
    sh(f"grep -rlE '/repo|/verif' {D}/verif --include=*.rs --include=*.toml --include=check.sh | xargs sed -i 's#/verif#{D}/VV#g; s#/repo#{D}/repo#g; s#/VV#/verif#g'", '/')
    bad = set()
    for attempt in range(12):
        sites = []
        for f in ['core', 'float', 'facility', 'file_access', 'loader', 'output', 'tools', 'units', 'parser', 'memory']:
            p = f'/repo/src/{f}.rs'
            out, intest, fn = [], False, ''
            for n, l in enumerate(open(p).read().split('\n')):
                if 'mod tests' in l: intest = True
                m = re.search(r'fn (\w+)', l)
                if m: fn = m.group(1)
                if not intest and (f, n) not in bad and 'const ' not in l and not l.strip().startswith('//') and 'fn ' not in l:
                    def site():
                        sites.append((f, n + 1, fn, l.strip()))
                        return len(sites)
                    def w(m): return f'::rare::n({site()}, {m.group(0)})'
                    l2 = re.sub(r'(self|vm)\.[sfr]_stack\(\)\.(pop[23]?|last)\(\)(?!\.)', lambda m: w(m) if m.group(2) != 'last' else m.group(0), l)
                    m = re.search(r'[sfr]_stack\(\)\.push\(', l2)
                    if m and close(l2, m.end() - 1) > 0:
                        e = close(l2, m.end() - 1)
                        l2 = l2[:m.end()] + f'::rare::n({site()}, {l2[m.end():e]})' + l2[e:]
                    m = re.search(r'get_isize\(|get_f64\(', l2)
                    l2 = re.sub(r'(\.len\(\)| as usize| as isize| as f64)(?=\)|;|,| [-+*/<>=]|\]|\.\.)(?! as)(?! =[^=])', lambda m: m.group(0) + f' % ::rare::M({site()})', l2)
                    l = l2
                out.append(l)
            open(f'{D}/repo/src/{f}.rs', 'w').write('\n'.join(out))
        t = open('/repo/src/lib.rs').read(); open(f'{D}/repo/src/lib.rs', 'w').write(t + RARE)
        x = sh('cargo build --offline --lib --message-format short', D + '/repo', 900)
        e = re.findall(r'^src/(\w+)\.rs:(\d+):\d+: error', x.stdout, re.M)
        print(attempt, len(sites), len(e), x.stdout[-300:] if not e else '')
        if not e: break
        bad |= {(f, int(n) - 1) for f, n in e}
    json.dump(sites, open(f'{D}/sites.json', 'w'))
    x = sh('cargo test --workspace --no-run --offline', D + '/repo', 900)
    print(x.stdout[-1500:])
    if x.returncode: sys.exit(1)
    x = sh('./check.sh build', D + '/verif', 900)
    print(x.stdout[-1000:])

if __name__ == '__main__':
    count, seed = int(sys.argv[1]), int(sys.argv[2])
    if not os.path.exists(f'{D}/sites.json'): prepare()
    sites = json.load(open(f'{D}/sites.json'))
    todo = []
    for s, (f, n, fn, l) in enumerate(sites):
        if re.search(r'push\(-?[\w.:]+\);', l) and not re.search(r'push\([a-z]', l): continue
        fl = 'f_stack' in l or 'f64' in l
        for m in range(len(FMODES) if fl else len(MODES)):
            if not fl and '.len()' in l and 'pop' not in l and m in (5, 8, 9, 10, 11): continue
            for c in range(2 if 'pop2' in l else 3 if 'pop3' in l else 1): todo.append((s, m, c, fl))
    random.Random(seed).shuffle(todo)
    print(len(sites), 'sites', len(todo), 'changes')
    seen = open(B + '/narrow.txt').read() if os.path.exists(B + '/narrow.txt') else ''
    kills = collections.Counter()
    done = 0
    for s, m, c, fl in todo:
        if done >= count: break
        f, n, fn, l = sites[s]
        tag = f'{f}.rs:{n} {fn}: {l}  [{s + 1} {m} {c}: {(FMODES if fl else MODES)[m]}]'
        if tag in seen: continue
        done += 1
        mark = f'{D}/mark'
        if os.path.exists(mark): os.unlink(mark)
        v = dict(RARE_MARK=mark, RARE_SEL=str(s + 1), RARE_MODE=str(m), RARE_COMP=str(c))
        sh('timeout 200 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > ../test.log 2>&1; python3 /opt/vp/results.py ../out.json cargo:../test.log', D + '/repo', **v)
        try: o = json.load(open(D + '/out.json'))['passed']
        except Exception: o = []
        res, t0 = None, time.time()
        marks = []
        if any(x not in o for x in STABLE): res = 'TESTS'
        else:
            rel = {'file_access': 'C21', 'loader': 'C22', 'tools': 'C26 C20', 'facility': 'C20 C19 C17 C18', 'float': 'C23', 'output': 'C15 C26', 'parser': 'C13 C14', 'memory': 'C04 C24 C25', 'core': 'C02 C07 C25'}.get(f, '').split()
            al = ['C%02d' % k for k in range(1, 32)]
            if f != 'facility': al = [a for a in al if a not in ('C17', 'C18', 'C19', 'C28')]
            first = rel + ['C27', 'C04', 'C02', 'C16', 'C26', 'C05', 'C12', 'C03']
            for k in sorted(al, key=lambda k: (k not in rel, k not in first, -kills[k], k in ('C28', 'C29', 'C30', 'C31'))):
                if k not in first and not marks: break
                if os.path.exists(mark): os.unlink(mark)
                y = sh(f'./check.sh {k}', D + '/verif', VERIF_TIER='quick', **v)
                if os.path.exists(mark): marks.append(k)
                if y is None or y.returncode not in (0, 1): res = f'{k} rc {y and y.returncode}'; break
                if y.returncode == 1: res = k; kills[k] += 1; break
        line = f'{res or ("SURVIVED" if marks else "UNREACHED"):9s} {tag}   {"" if res else "changed in " + str(marks)} {time.time()-t0:.0f} s'
        print(line, flush=True)
        open(B + '/narrow.txt', 'a').write(line + '\n')
