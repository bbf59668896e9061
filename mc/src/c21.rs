//! C21: the file words act on files as the file model prescribes, for every history.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;

const BAD: isize = -24; // invalid numeric argument
const IO: isize = -37; // file I/O exception
const ADDR: isize = -9;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Create(usize, isize),
    Open(usize, isize),
    Delete(usize),
    Close(isize),
    Size(isize),
    Pos(isize),
    Seek(isize, isize, isize),
    Resize(isize, isize, isize),
    Read(usize, isize),
    Write(usize, isize),
    /// switch to another task (files belong to the task that opened them)
    Task(usize),
}
use Op::*;

#[derive(Clone, Default)]
pub struct Fs {
    names: [Option<usize>; 3],
    data: Vec<Vec<u8>>,
    table: [Vec<Option<(usize, usize, bool, bool)>>; 2],
    task: usize,
}

const NAMES: [&str; 3] = ["a", "b", "no/such/folder/c"];

impl Fs {
    fn slot(&self, id: isize) -> Option<(usize, usize, bool, bool)> {
        if id < 1 {
            None
        } else {
            self.table[self.task].get(id as usize - 1).cloned().flatten()
        }
    }
    fn add(&mut self, f: (usize, usize, bool, bool)) -> isize {
        let t = &mut self.table[self.task];
        let k = t.iter().position(|x| x.is_none()).unwrap_or_else(|| {
            t.push(None);
            t.len() - 1
        });
        t[k] = Some(f);
        k as isize + 1
    }
    /// Expected stack; for Read also the bytes.
    fn step(&mut self, op: Op, seed: u8) -> (Vec<isize>, Vec<u8>) {
        let mut bytes = vec![];
        let res = match op {
            Create(_, fam) if fam != 1 && fam != 2 => vec![-1, BAD],
            Open(_, fam) if fam < 0 || fam > 2 => vec![-1, BAD],
            Create(2, _) | Open(2, _) => vec![-1, IO],
            Create(n, fam) => {
                let ino = match self.names[n] {
                    Some(i) => i,
                    None => {
                        self.data.push(vec![]);
                        self.data.len() - 1
                    }
                };
                self.names[n] = Some(ino);
                self.data[ino].clear();
                vec![self.add((ino, 0, fam == 2, true)), 0]
            }
            Open(n, fam) => match self.names[n] {
                Some(ino) => vec![self.add((ino, 0, fam != 1, fam != 0)), 0],
                None => vec![-1, IO],
            },
            Delete(n) => {
                let had = self.names[n].take().is_some();
                vec![if had { 0 } else { IO }]
            }
            Task(t) => {
                self.task = t;
                vec![]
            }
            Close(id) => match self.slot(id) {
                Some(_) => {
                    self.table[self.task][id as usize - 1] = None;
                    vec![0]
                }
                None => vec![BAD],
            },
            Size(id) => match self.slot(id) {
                Some((ino, ..)) => vec![self.data[ino].len() as isize, 0, 0],
                None => vec![-1, -1, BAD],
            },
            Pos(id) => match self.slot(id) {
                Some((_, p, ..)) => vec![p as isize, 0, 0],
                None => vec![-1, -1, BAD],
            },
            Seek(lo, hi, id) => match self.slot(id) {
                Some(_) if lo >= 0 && hi == 0 => {
                    self.table[self.task][id as usize - 1].as_mut().unwrap().1 = lo as usize;
                    vec![0]
                }
                _ => vec![BAD],
            },
            Resize(lo, hi, id) => match self.slot(id) {
                Some((ino, _, _, w)) if lo >= 0 && hi == 0 => {
                    if w {
                        self.data[ino].resize(lo as usize, 0);
                        vec![0]
                    } else {
                        vec![IO]
                    }
                }
                _ => vec![BAD],
            },
            Read(n, id) => match self.slot(id) {
                Some((ino, p, true, _)) => {
                    let d = &self.data[ino];
                    let a = p.min(d.len());
                    let b = (p + n).min(d.len()).max(a);
                    bytes = d[a..b].to_vec();
                    self.table[self.task][id as usize - 1].as_mut().unwrap().1 = p + bytes.len();
                    vec![bytes.len() as isize, 0]
                }
                Some(_) => vec![0, IO],
                None => vec![0, BAD],
            },
            Write(n, id) => match self.slot(id) {
                Some((ino, p, _, true)) => {
                    if n > 0 {
                        let d = &mut self.data[ino];
                        if d.len() < p + n {
                            d.resize(p + n, 0);
                        }
                        for i in 0..n {
                            d[p + i] = pattern(seed, i);
                        }
                        self.table[self.task][id as usize - 1].as_mut().unwrap().1 = p + n;
                    }
                    vec![0]
                }
                // nothing to write: nothing to fail
                Some(_) => vec![if n == 0 { 0 } else { IO }],
                None => vec![BAD],
            },
        };
        (res, bytes)
    }
    fn hash(&self) -> H {
        let mut h = H::new().u(self.task as u64);
        for n in &self.names {
            h = h.u(n.map(|x| x as u64 + 1).unwrap_or(0));
        }
        for d in &self.data {
            h = h.u(d.len() as u64);
            for c in d.iter().take(64) {
                h = h.u(*c as u64);
            }
        }
        for t in &self.table {
            h = h.u(77);
            for f in t {
                h = match f {
                    Some((i, p, r, w)) => h.u(*i as u64).u(*p as u64).u(*r as u64 * 2 + *w as u64),
                    None => h.u(99),
                };
            }
        }
        h
    }
}

fn pattern(seed: u8, i: usize) -> u8 {
    (seed as usize * 37 + i * 7 + i / 256 + 1) as u8
}

const BUF: usize = 36000;

/// Words looked up once per VM, buffers in the data space.
struct Bench {
    vm: VM,
    xt: [usize; 10],
    buf: usize,
    nam: [usize; 3],
    len: [usize; 3],
    dir: String,
}

impl Bench {
    fn new(dir: &str) -> Bench {
        let mut vm = new_vm();
        reset(&mut vm);
        let names = [
            "create-file", "open-file", "delete-file", "close-file", "file-size", "file-position", "reposition-file",
            "resize-file", "read-file", "write-file",
        ];
        let mut xt = [0; 10];
        for (i, n) in names.iter().enumerate() {
            xt[i] = vm.find(n).expect(n);
        }
        let here = vm.data_space().here();
        let mut nam = [0; 3];
        let mut len = [0; 3];
        let mut a = here + 8;
        for i in 0..3 {
            let p = format!("{}/{}", dir, NAMES[i]);
            poke(&mut vm, a, p.as_bytes());
            nam[i] = a;
            len[i] = p.len();
            a += p.len();
        }
        let buf = a + 16;
        eval(&mut vm, &format!("{} allot", BUF + 2048));
        assert_eq!(err(&vm), 0);
        Bench { vm, xt, buf, nam, len, dir: dir.to_string() }
    }
    fn clean(&mut self) {
        for t in 0..5 {
            self.vm.set_current_task(t);
            self.vm.files_mut().clear();
        }
        for n in &NAMES[..2] {
            let _ = std::fs::remove_file(format!("{}/{}", self.dir, n));
        }
        reset(&mut self.vm);
    }
    fn call(&mut self, w: usize, args: &[isize]) -> Vec<isize> {
        for a in args {
            self.vm.s_stack().push(*a);
        }
        let xt = self.xt[w];
        self.vm.execute_word(xt);
        self.vm.run();
        let v = self.vm.s_stack().as_slice().to_vec();
        self.vm.s_stack().reset();
        v
    }
    /// Run one operation on the real words.
    fn step(&mut self, op: Op, seed: u8) -> (Vec<isize>, Vec<u8>) {
        let (nam, len, buf) = (self.nam, self.len, self.buf as isize);
        let start = self.vm.data_space().start();
        let off = self.buf - start;
        match op {
            Create(n, f) => (self.call(0, &[nam[n] as isize, len[n] as isize, f]), vec![]),
            Open(n, f) => (self.call(1, &[nam[n] as isize, len[n] as isize, f]), vec![]),
            Delete(n) => (self.call(2, &[nam[n] as isize, len[n] as isize]), vec![]),
            Close(id) => (self.call(3, &[id]), vec![]),
            Size(id) => (self.call(4, &[id]), vec![]),
            Pos(id) => (self.call(5, &[id]), vec![]),
            Seek(lo, hi, id) => (self.call(6, &[lo, hi, id]), vec![]),
            Resize(lo, hi, id) => (self.call(7, &[lo, hi, id]), vec![]),
            Task(t) => {
                self.vm.set_current_task(t);
                (vec![], vec![])
            }
            Read(n, id) => {
                for b in mem(&mut self.vm)[off - 8..off + n + 8].iter_mut() {
                    *b = 0xEE;
                }
                let r = self.call(8, &[buf, n as isize, id]);
                let k = if r.len() == 2 && r[0] >= 0 && r[0] <= n as isize { r[0] as usize } else { 0 };
                let m = mem(&mut self.vm);
                let v = m[off..off + k].to_vec();
                let rest = m[off - 8..off].iter().chain(&m[off + k..off + n + 8]).all(|b| *b == 0xEE);
                (r, if rest { v } else { b"bytes outside the result changed".to_vec() })
            }
            Write(n, id) => {
                let m = mem(&mut self.vm);
                for i in 0..n {
                    m[off + i] = pattern(seed, i);
                }
                m[off + n] = 0xEE;
                let r = self.call(9, &[buf, n as isize, id]);
                let m = mem(&mut self.vm);
                let same = (0..n).all(|i| m[off + i] == pattern(seed, i));
                (r, if same { vec![] } else { b"buffer changed".to_vec() })
            }
        }
    }
    /// The files as the operating system sees them.
    fn disk(&self) -> Vec<Option<Vec<u8>>> {
        NAMES[..2].iter().map(|n| std::fs::read(format!("{}/{}", self.dir, n)).ok()).collect()
    }
}

fn bench(wk: &mut Wk) -> Bench {
    match wk.store.remove(&0) {
        Some(b) => *b.downcast::<Bench>().unwrap(),
        None => Bench::new(&wk.scratch.clone()),
    }
}

/// Run a history and compare every result, then everything that can be observed.
fn history(wk: &mut Wk, ops: &[Op]) -> CaseResult {
    let mut b = bench(wk);
    b.clean();
    let key = format!("{:?}", ops);
    wk.note(&key);
    let mut fs = Fs::default();
    let mut all: Vec<Op> = ops.to_vec();
    let top = ops
        .iter()
        .filter(|o| matches!(o, Create(..) | Open(..)))
        .count()
        .max(1) as isize;
    for t in 0..2 {
        if t == 1 && !ops.iter().any(|o| matches!(o, Task(_))) {
            break;
        }
        all.push(Task(t));
        for id in 1..=top {
            all.push(Size(id));
            all.push(Pos(id));
        }
    }
    for (k, op) in all.iter().enumerate() {
        let want = fs.step(*op, k as u8);
        let got = b.step(*op, k as u8);
        wk.trans(1);
        wk.state(fs.hash());
        if got != want {
            return fail(key, format!("operation {} {:?}: got {:?}, expected {:?}", k, op, got, want));
        }
    }
    if err(&b.vm) != 0 {
        return fail(key, format!("error {}", err(&b.vm)));
    }
    let want: Vec<_> = (0..2).map(|n| fs.names[n].map(|i| fs.data[i].clone())).collect();
    let got = b.disk();
    if got != want {
        return fail(key, format!("files on disk: {:?}, expected {:?}", got, want));
    }
    wk.trace();
    wk.store.insert(0, Box::new(b));
    Ok(())
}

fn histories(name: &str, pre: Vec<Op>, ops: Vec<Op>, depth: usize, chunk: u64) -> Scope {
    let n = ops.len() as u64;
    Scope::new(name, n.pow(depth as u32), chunk, move |wk, i| {
        let mut h = pre.clone();
        h.extend(digits(i, n, depth).into_iter().map(|d| ops[d]));
        history(wk, &h)
    })
}

/// Everything two files can do in a few steps.
fn general() -> Vec<Op> {
    vec![
        Create(0, 1), Create(0, 2), Create(1, 2), Open(0, 0), Open(0, 1), Open(0, 2), Open(1, 0), Open(1, 2),
        Delete(0), Delete(1), Close(1), Close(2), Write(3, 1), Write(2, 2), Write(0, 1), Read(2, 1), Read(4, 2), Read(0, 1),
        Seek(1, 0, 1), Seek(5, 0, 2), Resize(1, 0, 1), Resize(4, 0, 2),
    ]
}

fn inside(id: isize) -> Vec<Op> {
    vec![
        Read(0, id), Read(1, id), Read(3, id), Read(20, id), Write(1, id), Write(3, id), Seek(0, 0, id), Seek(2, 0, id),
        Seek(10, 0, id), Seek(12, 0, id), Resize(0, 0, id), Resize(2, 0, id), Resize(11, 0, id), Size(id), Pos(id),
    ]
}

/// Two ids of one file, with every access method.
fn shared(fam1: isize, fam2: isize, depth: usize, chunk: u64) -> Scope {
    let pre = vec![Create(0, 2), Write(6, 1), Close(1), Open(0, fam1), Open(0, fam2)];
    let ops = vec![
        Read(2, 1), Read(9, 2), Write(2, 1), Write(3, 2), Write(0, 2), Seek(0, 0, 1), Seek(4, 0, 2), Seek(8, 0, 1), Resize(3, 0, 1), Resize(7, 0, 2),
    ];
    histories(&format!("one file under two ids, methods {} and {}", fam1, fam2), pre, ops, depth, chunk)
}

fn ids() -> Vec<isize> {
    vec![
        isize::MIN, isize::MIN + 1, -3, -2, -1, 0, 1, 2, 3, 4, 5, 64, 1 << 32, (1 << 32) + 1, (1 << 61) + 1, isize::MAX - 1, isize::MAX,
    ]
}

/// Every word with every id, in every table of three slots.
fn bad_ids(wk: &mut Wk, i: u64) -> CaseResult {
    let id = ids();
    let words = 12;
    let st = (i / (id.len() as u64 * words)) as usize;
    let id = id[(i / words) as usize % id.len()];
    let mut h = vec![];
    // slots: never used, closed, r/o, w/o, r/w each
    let mut k = st;
    let mut close = vec![];
    h.push(Create(0, 2));
    h.push(Write(5, 1));
    h.push(Close(1));
    for s in 0..3 {
        match k % 4 {
            0 => {
                close.push(s + 1);
                h.push(Open(0, 2));
            }
            m => h.push(Open(0, m as isize - 1)),
        }
        k /= 4;
    }
    for c in close {
        h.push(Close(c));
    }
    let v: [isize; 4] = [-1, isize::MIN, 1 << 40, 0];
    h.push(match i % words {
        0 => Close(id),
        1 => Size(id),
        2 => Pos(id),
        3 => Seek(3, 0, id),
        4 => Resize(3, 0, id),
        5 => Read(4, id),
        6 => Write(4, id),
        7 => Seek(v[0], 0, id),
        8 => Resize(v[1], 0, id),
        9 => Seek(1, 1, id),
        10 => Resize(1, -1, id),
        _ => Write(0, id),
    });
    history(wk, &h)
}

/// Offsets and sizes around the ends of the integer range.
fn offsets(wk: &mut Wk, i: u64) -> CaseResult {
    let v: [isize; 18] = [
        isize::MIN, isize::MIN + 1, -4096, -2, -1, 0, 1, 2, 255, 256, 4095, 4096, 65535, 65536, 100000, 1 << 31, (1 << 31) + 5, 1 << 33,
    ];
    let hi: [isize; 5] = [0, 1, -1, isize::MIN, isize::MAX];
    let n = v.len() as u64;
    let lo = v[(i % n) as usize];
    let h = hi[(i / n % 5) as usize];
    let fam = (i / n / 5 % 3) as isize;
    let pre = [Create(0, 2), Write(5, 1), Close(1), Open(0, fam)];
    let mut ops = pre.to_vec();
    match i / n / 15 {
        0 => ops.extend(&[Seek(lo, h, 1), Pos(1), Read(3, 1), Pos(1), Size(1)]),
        1 => {
            if lo > 100000 {
                return Ok(());
            }
            ops.extend(&[Resize(lo, h, 1), Size(1), Pos(1), Seek(0, 0, 1), Read(8, 1)])
        }
        2 => {
            if lo > 100000 {
                return Ok(());
            }
            ops.extend(&[Seek(lo, h, 1), Write(3, 1), Pos(1), Size(1), Seek(2, 0, 1), Read(9, 1)])
        }
        _ => ops.extend(&[Read(2, 1), Seek(lo, h, 1), Write(0, 1), Read(0, 1), Pos(1)]),
    }
    history(wk, &ops)
}

/// Many open files at a time: ids are used again, each keeps its own place.
fn crowded(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i % 70) as isize + 1;
    let m = (i / 70 % 6) as isize + 1;
    let up = i / 420 == 0;
    let mut ops = vec![Create(0, 2), Write(250, 1), Create(1, 2), Write(9, 2)];
    for k in 3..=n {
        ops.push(Open(if k % 5 == 0 { 1 } else { 0 }, k % 3));
        ops.push(Seek(k * 3, 0, k));
    }
    let mut gone: Vec<isize> = (1..=n.max(2)).filter(|k| k % m == m / 2).collect();
    if !up {
        gone.reverse();
    }
    for k in &gone {
        ops.push(Close(*k));
    }
    for k in 1..=n {
        ops.push(Read(2, k));
    }
    for (k, _) in gone.iter().enumerate() {
        ops.push(Open(0, 2));
        if k % 2 == 1 {
            ops.push(Seek(100 + k as isize, 0, gone[gone.len() / 2]));
        }
    }
    ops.push(Open(1, 0));
    for k in 1..=n + 1 {
        ops.push(if k % 4 == 0 { Write(1, k) } else { Read(3, k) });
    }
    history(wk, &ops)
}

/// Sizes and places beyond 2^31 and 2^32, in files with a hole.
fn sparse(wk: &mut Wk, i: u64) -> CaseResult {
    let s = [(1isize << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 33) + 77, (1 << 40) - 3][(i % 8) as usize];
    let grow = i / 8 % 2 == 0;
    let back = [0isize, 1, 2, 300][(i / 16) as usize];
    let mut b = bench(wk);
    b.clean();
    let key = format!("a file of {} bytes, made by {}, {} bytes back", s, if grow { "resize-file" } else { "reposition-file and write-file" }, back);
    wk.note(&key);
    file_limit(false);
    // not every file system has files that large
    let probe = format!("{}/probe", b.dir);
    let can = std::fs::File::create(&probe).and_then(|f| f.set_len(s as u64 + 400)).is_ok();
    let _ = std::fs::remove_file(&probe);
    if !can {
        file_limit(true);
        wk.store.insert(0, Box::new(b));
        return Ok(());
    }
    let mut steps: Vec<(Op, Vec<isize>, Vec<u8>)> = vec![(Create(0, 2), vec![1, 0], vec![])];
    if grow {
        steps.push((Resize(s, 0, 1), vec![0], vec![]));
    } else {
        steps.push((Seek(s - 3, 0, 1), vec![0], vec![]));
        steps.push((Write(3, 1), vec![0], vec![]));
        steps.push((Pos(1), vec![s, 0, 0], vec![]));
    }
    steps.push((Size(1), vec![s, 0, 0], vec![]));
    steps.push((Seek(s - back, 0, 1), vec![0], vec![]));
    steps.push((Pos(1), vec![s - back, 0, 0], vec![]));
    let k = steps.len();
    steps.push((Write(2, 1), vec![0], vec![]));
    steps.push((Pos(1), vec![s - back + 2, 0, 0], vec![]));
    let e = s.max(s - back + 2);
    steps.push((Size(1), vec![e, 0, 0], vec![]));
    steps.push((Seek(s - back, 0, 1), vec![0], vec![]));
    steps.push((Read(2, 1), vec![2, 0], (0..2).map(|j| pattern(k as u8, j)).collect()));
    steps.push((Resize(s - 1000, 0, 1), vec![0], vec![]));
    steps.push((Size(1), vec![s - 1000, 0, 0], vec![]));
    steps.push((Resize(0, 0, 1), vec![0], vec![]));
    steps.push((Size(1), vec![0, 0, 0], vec![]));
    steps.push((Close(1), vec![0], vec![]));
    for (k, (op, want, bytes)) in steps.iter().enumerate() {
        let (got, m) = b.step(*op, k as u8);
        wk.trans(1);
        if got != *want || m != *bytes {
            b.clean();
            file_limit(true);
            return fail(key, format!("operation {} {:?}: got {:?} {:?}, expected {:?} {:?}", k, op, got, m, want, bytes));
        }
    }
    b.clean();
    file_limit(true);
    wk.state(H::new().u(i + 77_000));
    wk.trace();
    wk.store.insert(0, Box::new(b));
    Ok(())
}

/// Opening and closing in every order.
fn table(depth: usize) -> Scope {
    let ops = vec![Open(0, 2), Create(1, 1), Close(1), Close(2), Close(3), Close(4)];
    histories("opening and closing in every order", vec![Create(0, 2), Write(4, 1), Seek(1, 0, 1)], ops, depth, 512)
}

/// File lengths, chunk lengths: what is written is what is read, whatever the pieces.
fn pieces(wk: &mut Wk, i: u64) -> CaseResult {
    let l = [0usize, 1, 2, 3, 7, 8, 9, 63, 64, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 12000, 16383, 16384, 16385, 20000, 32767, 32768, 32769];
    let n = l.len() as u64;
    let (a, b, c) = (l[(i % n) as usize], l[(i / n % n) as usize], l[(i / n / n) as usize]);
    if a + b > BUF {
        return Ok(());
    }
    let mut h = vec![Create(0, 2), Write(a, 1), Write(b, 1), Size(1), Seek(0, 0, 1), Read(c, 1), Read(b, 1), Pos(1), Read(BUF, 1), Read(1, 1)];
    h.extend(&[Seek(c as isize, 0, 1), Write(a, 1), Seek(0, 0, 1), Read(BUF, 1), Read(BUF, 1)]);
    history(wk, &h)
}

/// Access methods, names and where they are.
/// n files open at once, one of them closed and another opened, then all at their own places.
fn crowd(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i % 60) as usize + 1;
    let k = (i / 60) as usize % n + 1;
    let mut h = vec![Create(0, 2), Write(3 * n + 7, 1), Close(1)];
    for _ in 0..n {
        h.push(Open(0, 0));
    }
    for j in 0..n {
        h.push(Seek(3 * j as isize + 1, 0, j as isize + 1));
    }
    h.extend(&[Close(k as isize), Pos(k as isize), Open(0, 2), Open(0, 1)]);
    for j in (0..n + 1).rev() {
        h.push(Read(2, j as isize + 1));
        h.push(Pos(j as isize + 1));
    }
    h.extend(&[Task(1), Pos(k as isize), Task(0), Pos(k as isize)]);
    history(wk, &h)
}

fn names(wk: &mut Wk, i: u64) -> CaseResult {
    let fams: [isize; 10] = [-1, 0, 1, 2, 3, 4, 8, 256, isize::MIN, isize::MAX];
    let word = (i % 3) as usize;
    let fam = fams[(i / 3 % 10) as usize];
    let exists = i / 30 % 2 == 1;
    let len = (i / 60) as usize; // total length of the path
    let mut b = bench(wk);
    b.clean();
    let dir = b.dir.clone();
    let mut p = format!("{}/", dir);
    if len <= p.len() {
        wk.store.insert(0, Box::new(b));
        return Ok(());
    }
    while p.len() < len {
        let c = b"xyz ,~";
        p.push(c[p.len() % c.len()] as char);
    }
    let p = p[..len].to_string();
    let key = format!("word {} method {} path of {} bytes, file exists: {}", word, fam, len, exists);
    wk.note(&key);
    // a path component has at most 255 bytes
    let real = len - dir.len() - 1 <= 255;
    let _ = std::fs::remove_file(&p);
    if exists && real {
        std::fs::write(&p, "12345").unwrap();
    }
    let at = b.buf;
    poke(&mut b.vm, at, p.as_bytes());
    poke(&mut b.vm, at + len, b"tail");
    let there = exists && real;
    let valid = fam >= 0 && fam <= 2;
    let (want, left): (Vec<isize>, Option<usize>) = match word {
        0 => {
            if len > 256 || fam == 0 || !valid {
                (vec![-1, BAD], if there { Some(5) } else { None })
            } else if !real {
                (vec![-1, IO], None)
            } else {
                (vec![1, 0], Some(0))
            }
        }
        1 => {
            if len > 256 || !valid {
                (vec![-1, BAD], if there { Some(5) } else { None })
            } else if !there {
                (vec![-1, IO], None)
            } else {
                (vec![1, 0], Some(5))
            }
        }
        _ => {
            if len > 256 {
                (vec![BAD], if there { Some(5) } else { None })
            } else {
                (vec![if there { 0 } else { IO }], None)
            }
        }
    };
    let got = match word {
        0 => b.call(0, &[at as isize, len as isize, fam]),
        1 => b.call(1, &[at as isize, len as isize, fam]),
        _ => b.call(2, &[at as isize, len as isize]),
    };
    let disk = std::fs::metadata(&p).ok().map(|m| m.len() as usize);
    let _ = std::fs::remove_file(&p);
    let other = std::fs::read_dir(&dir).unwrap().count();
    let fresh = b.vm.files().iter().filter(|f| f.is_some()).count();
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i));
    if got != want || disk != left || err(&b.vm) != 0 || other != 0 || fresh != (want[0] == 1) as usize {
        return fail(
            key,
            format!("result {:?}, size {:?}, {} other files, error {}; expected {:?}, size {:?}", got, disk, other, err(&b.vm), want, left),
        );
    }
    wk.store.insert(0, Box::new(b));
    Ok(())
}

/// Names and buffers outside the data space.
fn addresses(wk: &mut Wk, i: u64) -> CaseResult {
    let mut b = bench(wk);
    b.clean();
    let (s, l) = (b.vm.data_space().start() as isize, b.vm.data_space().limit() as isize);
    let addr = [0, 1, 8, -1, isize::MIN, isize::MAX, s - 1, s - 8, l - 1, l, l + 1, s, l - 3][(i % 13) as usize];
    let len = [1isize, 3, 4, 8, 255, -1, isize::MIN, isize::MAX, 0][(i / 13 % 9) as usize];
    let word = (i / 13 / 9) as usize;
    let key = format!("word {} at start{:+} limit{:+}, length {}", word, addr.wrapping_sub(s), addr.wrapping_sub(l), len);
    wk.note(&key);
    let ok = len >= 0 && addr >= s && addr <= l && len <= l - addr;
    for op in &[Create(1, 2), Write(6, 1), Seek(2, 0, 1)] {
        b.step(*op, 1);
    }
    // all bytes of the data space from which a name could be taken name nothing
    let save: Vec<u8> = mem(&mut b.vm).to_vec();
    if ok && word < 3 && addr != l {
        wk.store.insert(0, Box::new(b));
        return Ok(());
    }
    let got = match word {
        0 => b.call(0, &[addr, len, 2]),
        1 => b.call(1, &[addr, len, 0]),
        2 => b.call(2, &[addr, len]),
        3 => b.call(8, &[addr, len, 1]),
        _ => b.call(9, &[addr, len, 1]),
    };
    let good = match word {
        0 | 1 => got == [-1, if len < 0 || len > 256 { BAD } else if ok { IO } else { ADDR }],
        2 => got == [if len < 0 || len > 256 { BAD } else if ok { IO } else { ADDR }],
        3 => {
            if ok {
                got == [len.min(4), 0]
            } else {
                got == [0, ADDR]
            }
        }
        // the error result for a bad buffer is not specified beyond being one
        _ => got.len() == 1 && (got[0] == 0) == ok,
    };
    let (p, n) = if word == 3 && ok { (2 + len.min(4), 6) } else if word == 4 && ok { (2 + len, 6.max(2 + len)) } else { (2, 6) };
    let q = b.step(Pos(1), 0).0;
    let z = b.step(Size(1), 0).0;
    let same = (word == 3 && ok) || mem(&mut b.vm)[..] == save[..];
    if word == 3 && ok {
        poke(&mut b.vm, addr as usize, &save[(addr - s) as usize..(addr - s + len) as usize]);
        if mem(&mut b.vm)[..] != save[..] {
            return fail(key, "memory outside the buffer changed");
        }
    }
    wk.trans(6);
    wk.trace();
    wk.state(H::new().u(i));
    if !good || q[0] != p || z[0] != n || !same || err(&b.vm) != 0 {
        return fail(key, format!("got {:?}, position {:?}, size {:?}, memory unchanged: {}, error {}", got, q, z, same, err(&b.vm)));
    }
    wk.store.insert(0, Box::new(b));
    Ok(())
}

pub fn property(t: bool) -> Property {
    let d = t as usize;
    let mut scopes = vec![
        histories("two files, every history of 4 operations", vec![], general(), 4, 512),
        histories(
            "one file with ten characters, every history inside it",
            vec![Create(0, 2), Write(10, 1), Seek(0, 0, 1)],
            inside(1),
            4 + d,
            512,
        ),
        table(6 + d),
        Scope::new("bad and closed ids", 64 * 12 * ids().len() as u64, 128, bad_ids),
        Scope::new("offsets and sizes", 18 * 15 * 4, 32, offsets),
        Scope::new("up to 70 open files at a time", 70 * 12, 16, crowded),
        Scope::new("sizes beyond 2^31 and 2^32", 64, 2, sparse),
        Scope::new("pieces of every length", 29 * 29 * 29, 64, pieces),
        Scope::new("1..60 files open at once, each of them closed and another opened", 3600, 16, crowd),
        Scope::new("names and methods", 60 * 300, 256, names),
        Scope::new("addresses", 13 * 9 * 5, 32, addresses),
    ];
    for f1 in 0..3 {
        for f2 in 0..3 {
            scopes.push(shared(f1, f2, 4 + d, 512));
        }
    }
    scopes.push(histories(
        "files belong to the task that opened them",
        vec![],
        vec![
            Task(0), Task(1), Create(0, 2), Create(1, 1), Open(0, 0), Close(1), Close(2), Write(2, 1), Write(3, 2), Read(2, 1), Seek(1, 0, 1),
        ],
        5 + d,
        512,
    ));
    if t {
        scopes.push(histories("two files, every history of 5 operations", vec![], general(), 5, 2048));
        scopes.push(histories(
            "two files of ten characters, every history of 5 operations",
            vec![Create(0, 2), Write(10, 1), Create(1, 2), Write(10, 2), Seek(3, 0, 1)],
            vec![
                Read(3, 1), Read(20, 2), Write(2, 1), Write(3, 2), Seek(0, 0, 1), Seek(2, 0, 2), Seek(12, 0, 2), Resize(2, 0, 1), Resize(11, 0, 2),
                Delete(0), Close(1), Open(0, 2), Create(0, 1), Open(1, 0),
            ],
            5,
            2048,
        ));
    }
    Property {
        id: "C21",
        assumptions: vec![
            "files live in a scratch directory of an ordinary POSIX file system; no I/O faults occur".into(),
            "a deleted file that is still open stays usable, as POSIX prescribes".into(),
        ],
        scopes,
    }
}
