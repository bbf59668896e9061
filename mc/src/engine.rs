//! Bounded-exhaustive exploration engine.
//!
//! A property is a list of scopes; a scope is a finite, fully indexed space of
//! cases (`0..total`).  Every index is executed against the real VM on every
//! run.  Cases run in chunks: a chunk starts from a fresh VM, so a failing case
//! can be replayed deterministically by running its chunk up to it.
//!
//! Process layout: the parent starts a child that explores; each worker of the
//! child publishes the case it is on in shared memory.  If the child dies or a
//! case does not end, the parent replays only that case in a fresh process and
//! calls it a violation only when the failure is reproduced there.

use rtforth::mock_vm::VM;
#[allow(unused_imports)]
use std::convert::TryInto;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::io::{Read, Write};
use std::panic;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type CaseResult = Result<(), Fail>;

pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ *x as u64;
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
pub type HSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// FNV-like 64-bit hash with a final mix; used only to count distinct states.
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new() -> H {
        H(0xcbf29ce484222325)
    }
    pub fn u(mut self, v: u64) -> H {
        let mut x = v.wrapping_add(0x9E3779B97F4A7C15).wrapping_mul(0xBF58476D1CE4E5B9);
        x ^= x >> 29;
        self.0 = (self.0 ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
        self
    }
    pub fn i(self, v: isize) -> H {
        self.u(v as u64)
    }
    pub fn s(mut self, v: &str) -> H {
        for c in v.as_bytes().chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self = self.u(u64::from_le_bytes(b));
        }
        self.u(v.len() as u64)
    }
    pub fn sl(mut self, v: &[isize]) -> H {
        for x in v {
            self = self.i(*x);
        }
        self.u(v.len() as u64 + 7)
    }
    pub fn end(self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub struct Wk {
    pub id: usize,
    pub thorough: bool,
    vm: Option<VM>,
    states: HSet,
    pub transitions: u64,
    pub traces: u64,
    pub want_sample: bool,
    samples: Vec<String>,
    note: String,
    slot: *mut u8,
    /// Scratch directory of this worker, relative to the current directory.
    pub scratch: String,
    pub store: BTreeMap<u64, Box<dyn std::any::Any>>,
}

const FILE_LIMIT: u64 = 64 << 20;

/// The limit on the size of files, which keeps a mistake from filling the disk, for a few operations on files with holes.
pub fn file_limit(on: bool) {
    // the limit holds for all threads: the last one out puts it back
    static OFF: std::sync::Mutex<usize> = std::sync::Mutex::new(0);
    let mut n = OFF.lock().unwrap();
    *n = if on { n.saturating_sub(1) } else { *n + 1 };
    unsafe {
        let mut z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut z);
        z.rlim_cur = if *n == 0 { z.rlim_max.min(FILE_LIMIT) } else { z.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &z);
    }
}

fn scratch(id: usize) -> String {
    let d = format!("w{}", id);
    let _ = std::fs::create_dir_all(&d);
    d
}

const SLOT: usize = 4096;
const NOTE_MAX: usize = SLOT - 64;

impl Wk {
    fn new(id: usize, thorough: bool, slot: *mut u8) -> Wk {
        Wk {
            id,
            thorough,
            vm: None,
            states: HSet::default(),
            transitions: 0,
            traces: 0,
            want_sample: false,
            samples: vec![],
            note: String::new(),
            slot,
            scratch: scratch(id),
            store: BTreeMap::new(),
        }
    }
    /// The chunk's VM; created on first use.
    pub fn vm(&mut self) -> &mut VM {
        if self.vm.is_none() {
            self.vm = Some(crate::vmx::new_vm());
        }
        self.vm.as_mut().unwrap()
    }
    pub fn take_vm(&mut self) -> VM {
        self.vm.take().unwrap_or_else(crate::vmx::new_vm)
    }
    pub fn put_vm(&mut self, vm: VM) {
        self.vm = Some(vm);
    }
    pub fn fresh(&mut self) -> &mut VM {
        self.vm = Some(crate::vmx::new_vm());
        self.vm.as_mut().unwrap()
    }
    pub fn drop_vm(&mut self) {
        self.vm = None;
    }
    /// Publish the case being run (shown in counterexamples and kept on a crash).
    pub fn note(&mut self, s: &str) {
        self.note.clear();
        self.note.push_str(s);
        let b = s.as_bytes();
        let n = b.len().min(NOTE_MAX);
        unsafe {
            std::ptr::write_volatile(self.slot.add(48) as *mut u64, n as u64);
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.slot.add(56), n);
        }
        if self.want_sample {
            if self.samples.len() < 64 {
                self.samples.push(s.chars().take(600).collect());
            }
            self.want_sample = false;
        }
    }
    pub fn state(&mut self, h: H) {
        self.states.insert(h.end());
    }
    pub fn trans(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    fn begin(&mut self, scope: u64, lo: u64, idx: u64, now: u64) {
        self.note.clear();
        unsafe {
            let p = self.slot as *mut u64;
            std::ptr::write_volatile(p.add(6), 0);
            std::ptr::write_volatile(p.add(1), now);
            std::ptr::write_volatile(p.add(2), scope);
            std::ptr::write_volatile(p.add(3), lo);
            std::ptr::write_volatile(p.add(4), idx);
            std::ptr::write_volatile(p, 1);
        }
    }
    fn end(&mut self) {
        unsafe { std::ptr::write_volatile(self.slot as *mut u64, 0) }
    }
}

pub struct Scope {
    pub name: String,
    pub total: u64,
    pub chunk: u64,
    pub f: Box<dyn Fn(&mut Wk, u64) -> CaseResult + Send + Sync>,
}

impl Scope {
    pub fn new(
        name: &str,
        total: u64,
        chunk: u64,
        f: impl Fn(&mut Wk, u64) -> CaseResult + Send + Sync + 'static,
    ) -> Scope {
        Scope { name: name.to_string(), total, chunk: chunk.max(1), f: Box::new(f) }
    }
}

pub struct Property {
    pub id: &'static str,
    pub scopes: Vec<Scope>,
    pub assumptions: Vec<String>,
}

/// Whether the cases of a property need a process of their own (because they capture what the
/// program writes to its standard output); each worker then hands its chunks to such a process.
static REMOTE: AtomicBool = AtomicBool::new(false);
#[allow(dead_code)]
pub fn set_remote() {
    REMOTE.store(true, SeqCst);
}

struct Server {
    child: std::process::Child,
    rx: std::io::BufReader<std::process::ChildStdout>,
}

impl Server {
    fn start(id: &str, dir: &str, worker: usize) -> Server {
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args(["serve", id, dir, &worker.to_string()])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("spawn server");
        let rx = std::io::BufReader::new(child.stdout.take().unwrap());
        Server { child, rx }
    }
    /// One request, one line of answer; None if the process died.
    fn ask(&mut self, q: &str) -> Option<String> {
        use std::io::BufRead;
        let ok = self.child.stdin.as_mut().unwrap().write_all(q.as_bytes()).is_ok();
        let mut l = String::new();
        match self.rx.read_line(&mut l) {
            Ok(n) if n > 0 && ok => Some(l),
            _ => {
                let _ = self.child.kill();
                let _ = self.child.wait();
                None
            }
        }
    }
}

/// The process behind one worker: runs chunks on request.
#[allow(dead_code)]
pub fn serve(p: &Property, dir: &str, worker: usize) -> i32 {
    use std::io::BufRead;
    limits();
    // nothing stays behind when the check is ended from outside
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    install_hook();
    std::env::set_current_dir(dir).unwrap();
    let out = unsafe { libc::dup(1) };
    let slots = map_shared(&format!("{}/slots", dir), SLOT * nworkers(), true);
    let mut wk = Wk::new(worker, tier_thorough(), unsafe { slots.add(worker * SLOT) });
    let say = |s: String| unsafe {
        let b = s.as_bytes();
        let mut at = 0;
        while at < b.len() {
            let n = libc::write(out, b[at..].as_ptr() as *const _, b.len() - at);
            if n <= 0 {
                libc::_exit(0);
            }
            at += n as usize;
        }
    };
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 {
            return 0;
        }
        let t: Vec<u64> = line.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if t.len() < 4 {
            let h: Vec<String> = wk.states.drain().map(|x| format!("{:x}", x)).collect();
            let s: Vec<String> = wk.samples.drain(..).map(|x| esc(&x)).collect();
            say(format!("{} {}\t{}\t{}\n", wk.transitions, wk.traces, h.join(" "), s.join("\t")));
            return 0;
        }
        let (si, lo, hi, base) = (t[0] as usize, t[1], t[2], t[3]);
        let t0 = Instant::now();
        let sc = &p.scopes[si];
        wk.drop_vm();
        wk.store.clear();
        let mut ran = 0;
        let mut f = String::new();
        for idx in lo..hi {
            wk.want_sample = idx == 0 || idx == sc.total / 2 || idx == sc.total.saturating_sub(1);
            wk.begin(si as u64, lo, idx, base + t0.elapsed().as_millis() as u64);
            let r = run_case(&mut wk, sc, idx);
            wk.end();
            ran += 1;
            if let Err(e) = r {
                f = format!("\t{}\t{}\t{}", idx, esc(&e.key), esc(&e.msg));
                break;
            }
        }
        say(format!("{}{}\n", ran, f));
    }
}

pub fn tier_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 8);
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static LAST_PANIC: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
fn tid() -> u64 {
    unsafe { libc::syscall(libc::SYS_gettid) as u64 }
}
fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        LAST_PANIC.lock().unwrap().insert(tid(), s);
    }));
}

/// Run one case, turning a panic of the code under test into a failure.
fn run_case(wk: &mut Wk, sc: &Scope, idx: u64) -> CaseResult {
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (sc.f)(wk, idx)));
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(f)) => {
            wk.drop_vm();
            wk.store.clear();
            Err(f)
        }
        Err(_) => {
            wk.drop_vm();
            wk.store.clear();
            let m = LAST_PANIC.lock().unwrap().remove(&tid()).unwrap_or_default();
            if std::env::var("MC_HARNESS_PANIC").is_ok() {
                eprintln!("panic: {}", m);
            }
            let key = if wk.note.is_empty() {
                format!("{}#{}", sc.name, idx)
            } else {
                wk.note.clone()
            };
            Err(Fail { key, msg: format!("the code under test panicked: {}", m.replace('\n', " ")) })
        }
    }
}

fn map_shared(path: &str, len: usize, create: bool) -> *mut u8 {
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .open(path)
        .expect("slot file");
    if create {
        f.set_len(len as u64).unwrap();
    }
    use std::os::unix::io::AsRawFd;
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

fn limits() {
    unsafe {
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        let m = 20u64 << 30;
        let z = libc::rlimit { rlim_cur: m, rlim_max: m };
        libc::setrlimit(libc::RLIMIT_AS, &z);
        let fs = FILE_LIMIT;
        let z = libc::rlimit { rlim_cur: fs, rlim_max: libc::RLIM_INFINITY };
        libc::setrlimit(libc::RLIMIT_FSIZE, &z);
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
}

fn nworkers() -> usize {
    std::env::var("MC_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .clamp(1, 16)
}

const HANG_S: u64 = 20;

/// Child: explore every scope.
pub fn child(p: &Property, dir: &str) -> i32 {
    limits();
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    install_hook();
    std::env::set_current_dir(dir).unwrap();
    let n = nworkers();
    let slots = map_shared(&format!("{}/slots", dir), SLOT * n, true) as usize;
    let t0 = Instant::now();
    let cap = Duration::from_secs(if tier_thorough() { 780 } else { 400 });
    let capped = AtomicBool::new(false);
    let stop = AtomicBool::new(false);
    let fails: Mutex<Vec<(usize, u64, u64, Fail)>> = Mutex::new(vec![]);
    let known = load_known(p.id);
    let unlisted = AtomicU64::new(0);
    let mut out = std::fs::File::create(format!("{}/out", dir)).unwrap();
    let done = AtomicBool::new(false);
    let mut all_states = HSet::default();
    let (mut tr, mut tc) = (0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let dir2 = dir.to_string();
    std::thread::scope(|s| {
        // watchdog
        let done_r = &done;
        s.spawn(move || {
            while !done_r.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                let now = t0.elapsed().as_millis() as u64;
                for i in 0..n {
                    let p = (slots + i * SLOT) as *const u64;
                    unsafe {
                        if std::ptr::read_volatile(p) == 1 {
                            let st = std::ptr::read_volatile(p.add(1));
                            if now > st + HANG_S * 1000 {
                                let _ = std::fs::write(format!("{}/hang", dir2), format!("{}", i));
                                libc::_exit(77);
                            }
                        }
                    }
                }
            }
        });
        let mut workers: Vec<Wk> = (0..n)
            .map(|i| Wk::new(i, tier_thorough(), (slots + i * SLOT) as *mut u8))
            .collect();
        struct SendWk(Wk);
        unsafe impl Send for SendWk {}
        for (si, sc) in p.scopes.iter().enumerate() {
            let ts = Instant::now();
            let next = AtomicU64::new(0);
            let ran = AtomicU64::new(0);
            let nchunks = (sc.total + sc.chunk - 1) / sc.chunk;
            let ws: Vec<SendWk> = workers.drain(..).map(SendWk).collect();
            let back: Mutex<Vec<SendWk>> = Mutex::new(vec![]);
            std::thread::scope(|s2| {
                for w in ws {
                    let (next, back, stop, capped, fails, known, unlisted, ran) =
                        (&next, &back, &stop, &capped, &fails, &known, &unlisted, &ran);
                    let dir_r = &dir;
                    s2.spawn(move || {
                        let mut w = w;
                        {
                            let wk = &mut w.0;
                            let mut server: Option<Server> = None;
                            loop {
                                if stop.load(SeqCst) {
                                    break;
                                }
                                if t0.elapsed() > cap {
                                    capped.store(true, SeqCst);
                                    break;
                                }
                                let c = next.fetch_add(1, SeqCst);
                                if c >= nchunks {
                                    break;
                                }
                                let lo = c * sc.chunk;
                                let hi = (lo + sc.chunk).min(sc.total);
                                wk.drop_vm();
                                wk.store.clear();
                                let mut answer: Option<(u64, Fail)> = None;
                                let remote = REMOTE.load(SeqCst);
                                if remote {
                                    if server.is_none() {
                                        server = Some(Server::start(p.id, dir_r, wk.id));
                                    }
                                    let q = format!("{} {} {} {}\n", si, lo, hi, t0.elapsed().as_millis());
                                    match server.as_mut().unwrap().ask(&q) {
                                        Some(l) => {
                                            let f: Vec<&str> = l.trim_end_matches('\n').split('\t').collect();
                                            ran.fetch_add(f[0].parse::<u64>().unwrap_or(0), SeqCst);
                                            if f.len() >= 4 {
                                                answer = Some((f[1].parse().unwrap_or(lo), Fail { key: unesc(f[2]), msg: unesc(f[3]) }));
                                            }
                                        }
                                        None => {
                                            server = None;
                                            let at = unsafe { std::ptr::read_volatile((wk.slot as *const u64).add(4)) };
                                            wk.end();
                                            answer = Some((at, Fail { key: format!("scope {} case {}", si, at), msg: "the process died".into() }));
                                        }
                                    }
                                }
                                for idx in lo..hi {
                                    if remote && answer.is_none() {
                                        break;
                                    }
                                    let (idx, r) = if let Some((at, f)) = answer.take() {
                                        (at, Err(f))
                                    } else {
                                        wk.want_sample = idx == 0
                                            || idx == sc.total / 2
                                            || idx == sc.total.saturating_sub(1);
                                        wk.begin(si as u64, lo, idx, t0.elapsed().as_millis() as u64);
                                        let r = run_case(wk, sc, idx);
                                        wk.end();
                                        ran.fetch_add(1, SeqCst);
                                        (idx, r)
                                    };
                                    if let Err(f) = r {
                                        let mut v = fails.lock().unwrap();
                                        let is_known = known.iter().any(|k| k.0 == f.key);
                                        // development only: failures before they are confirmed
                                        if let Some(path) = std::env::var_os("MC_SHOW") {
                                            if let Ok(mut o) = std::fs::OpenOptions::new().create(true).append(true).open(path) {
                                                let _ = writeln!(o, "scope {} case {}: {} -- {}", si, idx, f.key, f.msg);
                                            }
                                        }
                                        if !v.iter().any(|x| x.3.key == f.key) {
                                            if !is_known {
                                                if unlisted.fetch_add(1, SeqCst) >= 12 {
                                                    stop.store(true, SeqCst);
                                                }
                                            }
                                            v.push((si, lo, idx, f));
                                        }
                                        break; // the rest of this chunk is not run
                                    }
                                }
                            }
                            wk.drop_vm();
                            wk.store.clear();
                            if let Some(mut sv) = server {
                                if let Some(l) = sv.ask("quit\n") {
                                    let f: Vec<&str> = l.trim_end_matches('\n').split('\t').collect();
                                    let n: Vec<u64> = f[0].split(' ').filter_map(|x| x.parse().ok()).collect();
                                    wk.transitions += n[0];
                                    wk.traces += n[1];
                                    wk.states.extend(f[1].split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()));
                                    wk.samples.extend(f[2..].iter().filter(|x| !x.is_empty()).map(|x| unesc(x)));
                                }
                                let _ = sv.child.wait();
                            }
                        }
                        back.lock().unwrap().push(w);
                    });
                }
            });
            workers = back.into_inner().unwrap().into_iter().map(|w| w.0).collect();
            workers.sort_by_key(|w| w.id);
            let _ = writeln!(
                out,
                "SCOPE\t{}\t{}\t{}\t{:.2}",
                esc(&sc.name),
                sc.total,
                ran.load(SeqCst),
                ts.elapsed().as_secs_f64()
            );
        }
        done.store(true, SeqCst);
        for w in workers.iter_mut() {
            all_states.extend(w.states.drain());
            tr += w.transitions;
            tc += w.traces;
            samples.append(&mut w.samples);
        }
    });
    let _ = writeln!(out, "STAT\tstates\t{}", all_states.len());
    let _ = writeln!(out, "STAT\ttransitions\t{}", tr);
    let _ = writeln!(out, "STAT\ttraces\t{}", tc);
    let _ = writeln!(out, "STAT\tcapped\t{}", capped.load(SeqCst) as u8);
    for s in samples.iter().take(24) {
        let _ = writeln!(out, "SAMPLE\t{}", esc(s));
    }
    for (si, lo, idx, f) in fails.into_inner().unwrap() {
        let _ = writeln!(out, "FAIL\t{}\t{}\t{}\t{}\t{}", si, lo, idx, esc(&f.key), esc(&f.msg));
    }
    let _ = writeln!(out, "DONE");
    0
}

/// Replay chunk prefix `lo..=idx` of scope `si` from a fresh VM; exit 1 when `idx` fails.
pub fn one(p: &Property, dir: &str, si: usize, lo: u64, idx: u64) -> i32 {
    limits();
    install_hook();
    std::env::set_current_dir(dir).unwrap();
    let slot = map_shared(&format!("{}/slot1", dir), SLOT, true);
    let mut wk = Wk::new(0, tier_thorough(), slot);
    let sc = &p.scopes[si];
    for i in lo..=idx {
        wk.begin(si as u64, lo, i, 0);
        match run_case(&mut wk, sc, i) {
            Ok(()) => {}
            Err(f) => {
                let _ = std::fs::write(
                    format!("{}/one", dir),
                    format!("{}\t{}\t{}", i, esc(&f.key), esc(&f.msg)),
                );
                return if i == idx { 1 } else { 4 };
            }
        }
    }
    0
}

fn load_known(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string("/verif/known_findings.txt") {
        for l in s.lines() {
            let l = l.trim_end();
            if l.starts_with('#') || l.is_empty() || l.starts_with("fixed:") {
                continue;
            }
            let mut it = l.splitn(3, '\t');
            let (a, b, c) = (it.next(), it.next(), it.next());
            if let (Some(a), Some(b), Some(c)) = (a, b, c) {
                if a == format!("property={}", id) {
                    v.push((unesc(b.trim_start_matches("key=")), c.to_string()));
                }
            }
        }
    }
    v
}

enum Replay {
    Reproduced(String, String),
    Passed,
}

fn replay_once(id: &str, dir: &str, si: usize, lo: u64, idx: u64) -> Replay {
    let _ = std::fs::remove_file(format!("{}/one", dir));
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .args(["one", id, dir, &si.to_string(), &lo.to_string(), &idx.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    let st = loop {
        match c.try_wait().unwrap() {
            Some(s) => break Some(s),
            None => {
                if t0.elapsed() > Duration::from_secs(HANG_S + 5) {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(10));
            }
        }
    };
    let note = || {
        let mut s = String::new();
        if let Ok(mut f) = std::fs::File::open(format!("{}/slot1", dir)) {
            let mut b = vec![];
            let _ = f.read_to_end(&mut b);
            if b.len() >= SLOT {
                let n = u64::from_le_bytes(b[48..56].try_into().unwrap()) as usize;
                s = String::from_utf8_lossy(&b[56..56 + n.min(NOTE_MAX)]).into_owned();
            }
        }
        if s.is_empty() {
            s = format!("scope {} case {}", si, idx);
        }
        s
    };
    match st {
        None => Replay::Reproduced(note(), "the case does not terminate".into()),
        Some(s) => {
            use std::os::unix::process::ExitStatusExt;
            if let Some(sig) = s.signal() {
                return Replay::Reproduced(note(), format!("the process died of signal {}", sig));
            }
            match s.code() {
                Some(0) => Replay::Passed,
                Some(1) => {
                    let t = std::fs::read_to_string(format!("{}/one", dir)).unwrap_or_default();
                    let mut it = t.splitn(3, '\t');
                    let _ = it.next();
                    let k = unesc(it.next().unwrap_or(""));
                    let m = unesc(it.next().unwrap_or(""));
                    Replay::Reproduced(k, m)
                }
                Some(c) => Replay::Reproduced(note(), format!("the process exited with {}", c)),
                None => Replay::Passed,
            }
        }
    }
}

/// Parent: run the exploration in a child, confirm failures, report, write evidence.
pub fn check(p: &Property) -> i32 {
    let t0 = Instant::now();
    let dir = format!("{}/mc-{}-{}", std::env::temp_dir().display(), p.id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let r = check_in(p, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn check_in(p: &Property, dir: &str, t0: Instant) -> i32 {
    let id = p.id;
    let exe = std::env::current_exe().unwrap();
    let st = Command::new(exe)
        .args(["child", id, dir])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(if std::env::var("MC_HARNESS_PANIC").is_ok() {
            Stdio::inherit()
        } else {
            Stdio::null()
        })
        .status()
        .expect("spawn child");
    let out = std::fs::read_to_string(format!("{}/out", dir)).unwrap_or_default();
    let complete = out.lines().last() == Some("DONE") && st.code() == Some(0);
    let mut cands: Vec<(usize, u64, u64)> = vec![];
    let mut scopes = vec![];
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    for l in out.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "SCOPE" => scopes.push((unesc(f[1]), f[2].to_string(), f[3].to_string(), f[4].to_string())),
            "STAT" => {
                stats.insert(f[1].into(), f[2].parse().unwrap());
            }
            "SAMPLE" => samples.push(unesc(f[1])),
            "FAIL" => cands.push((f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap())),
            _ => {}
        }
    }
    if !complete {
        // The child died: the cases in flight are the candidates.
        if let Ok(b) = std::fs::read(format!("{}/slots", dir)) {
            let hang: Option<usize> = std::fs::read_to_string(format!("{}/hang", dir))
                .ok()
                .and_then(|s| s.parse().ok());
            for (i, s) in b.chunks(SLOT).enumerate() {
                let g = |k: usize| u64::from_le_bytes(s[k * 8..k * 8 + 8].try_into().unwrap());
                if g(0) == 1 && hang.map(|h| h == i).unwrap_or(true) {
                    cands.push((g(2) as usize, g(3), g(4)));
                }
            }
        }
    }
    let known = load_known(id);
    let mut violations = vec![];
    let mut known_hit: Vec<usize> = vec![];
    let mut unreproduced = vec![];
    for (si, lo, idx) in cands {
        let mut r = replay_once(id, dir, si, idx, idx);
        let mut from = idx;
        if let Replay::Passed = r {
            r = replay_once(id, dir, si, lo, idx);
            from = lo;
        }
        match r {
            Replay::Passed => unreproduced.push((si, lo, idx)),
            Replay::Reproduced(key, msg) => {
                if let Some(k) = known.iter().position(|k| k.0 == key) {
                    if !known_hit.contains(&k) {
                        known_hit.push(k);
                    }
                } else if !violations.iter().any(|v: &(usize, u64, u64, String, String)| v.3 == key) {
                    violations.push((si, from, idx, key, msg));
                }
            }
        }
        if violations.len() >= 8 {
            break;
        }
    }
    for k in &known_hit {
        println!("KNOWN-FINDING: property={} {}", id, known[*k].1);
    }
    let tier = if tier_thorough() { "thorough" } else { "quick" };
    let _ = std::fs::create_dir_all("/verif/evidence");
    let mut replays = vec![];
    if !violations.is_empty() {
        let _ = std::fs::create_dir_all("/verif/evidence/replay");
    }
    for (n, v) in violations.iter().enumerate() {
        let path = format!("/verif/evidence/replay/{}-{}.txt", id, n);
        let _ = std::fs::write(
            &path,
            format!(
                "property: {}\ntier: {}\nscope: {} ({})\ncases: {}..={}\nkey: {}\nmessage: {}\nreplay: VERIF_TIER={} /verif/check.sh replay {} {} {} {}\n",
                id, tier, v.0, p.scopes[v.0].name, v.1, v.2, v.3, v.4, tier, id, v.0, v.1, v.2
            ),
        );
        println!("counterexample: {} -- {}", v.3.replace('\n', "\\n"), v.4.replace('\n', "\\n"));
        println!("VIOLATION property={} replay={}", id, path);
        replays.push(path);
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let capped = stats.get("capped").cloned().unwrap_or(1) == 1;
    let all_ran = scopes.len() == p.scopes.len() && scopes.iter().all(|s| s.1 == s.2);
    let mut ev = String::new();
    ev.push_str(&format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{",
        json_str(id),
        json_str(tier),
        seed
    ));
    ev.push_str(&format!(
        "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},\"capped\":{},",
        stats.get("states").unwrap_or(&0),
        stats.get("transitions").unwrap_or(&0),
        stats.get("traces").unwrap_or(&0),
        complete && !capped && all_ran,
        capped
    ));
    ev.push_str("\"scopes\":[");
    for (i, s) in scopes.iter().enumerate() {
        if i > 0 {
            ev.push(',');
        }
        ev.push_str(&format!(
            "{{\"scope\":{},\"cases\":{},\"cases_run\":{},\"wall_s\":{}}}",
            json_str(&s.0),
            s.1,
            s.2,
            s.3
        ));
    }
    ev.push_str("],\"samples\":[");
    ev.push_str(&samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    ev.push_str("]},\"assumptions\":[");
    ev.push_str(&p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    ev.push_str(&format!(
        "],\"known_findings\":{},\"violations\":{},\"wall_s\":{:.2}}}\n",
        known_hit.len(),
        violations.len(),
        t0.elapsed().as_secs_f64()
    ));
    let _ = std::fs::write(format!("/verif/evidence/{}.json", id), ev);
    println!(
        "{} {}: states={} transitions={} traces={} exhaustive={} wall={:.1}s",
        id,
        tier,
        stats.get("states").unwrap_or(&0),
        stats.get("transitions").unwrap_or(&0),
        stats.get("traces").unwrap_or(&0),
        complete && !capped && all_ran,
        t0.elapsed().as_secs_f64()
    );
    for s in &scopes {
        println!("  scope {}: {} of {} cases, {}s", s.0, s.2, s.1, s.3);
    }
    if !violations.is_empty() {
        return 1;
    }
    if !unreproduced.is_empty() {
        println!("ERROR: failures that did not reproduce: {:?}", unreproduced);
        return 3;
    }
    if !complete {
        println!("ERROR: exploration process ended abnormally: {:?}", st);
        return 2;
    }
    0
}

/// The command line: what to run and how.
pub fn main(property: fn(&str, bool) -> Option<Property>) -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let t = tier_thorough();
    match a.get(0).map(|s| s.as_str()) {
        Some("child") => child(&property(&a[1], t).unwrap(), &a[2]),
        Some("serve") => serve(&property(&a[1], t).unwrap(), &a[2], a[3].parse().unwrap()),
        Some("one") => one(
            &property(&a[1], t).unwrap(),
            &a[2],
            a[3].parse().unwrap(),
            a[4].parse().unwrap(),
            a[5].parse().unwrap(),
        ),
        Some("replay") => {
            let d = format!("{}/mc-replay-{}", std::env::temp_dir().display(), std::process::id());
            std::fs::create_dir_all(&d).unwrap();
            // the case may have caught what is written to the standard output
            let out = unsafe { libc::dup(1) };
            let c = one(
                &property(&a[1], t).unwrap(),
                &d,
                a[2].parse().unwrap(),
                a[3].parse().unwrap(),
                a[4].parse().unwrap(),
            );
            unsafe { libc::dup2(out, 1) };
            println!("{}", std::fs::read_to_string(format!("{}/one", d)).unwrap_or_default());
            println!("exit {}", c);
            let _ = std::fs::remove_dir_all(&d);
            c
        }
        Some(id) => match property(id, t) {
            Some(p) => check(&p),
            None => {
                eprintln!("unknown property {}", id);
                2
            }
        },
        None => 2,
    }
}
