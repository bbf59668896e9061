//! C25: block, string and cell words change exactly the bytes they name.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;

const W: usize = 96; // bytes watched, the window lies in their middle

struct Bench {
    vm: VM,
    a: usize, // address of the watched bytes, 16-aligned
    run: usize,
}

const OPS: &[&str] = &[
    "!", "c!", "+!", "2!", "on", "off", "f!", "@", "c@", "2@", "f@", "count", "move", "fill", "append", "/string",
    "bounds", "?",
];

/// Every word as itself and inside a definition.
fn bench(wk: &mut Wk) -> Box<Bench> {
    match wk.store.remove(&0) {
        Some(b) => b.downcast::<Bench>().unwrap(),
        None => {
            let mut vm = new_vm();
            reset(&mut vm);
            let mut src = String::new();
            for (k, w) in OPS.iter().enumerate() {
                src += &format!(": w{} {} ; ", k, w);
            }
            for def in src.split_inclusive("; ") {
                eval(&mut vm, def);
                assert_eq!(err(&vm), 0);
            }
            let a = (vm.data_space().here() + 2047) & !1023;
            Box::new(Bench { vm, a, run: 0 })
        }
    }
}

/// What one word must do to the bytes; `at`: offset of the first byte of the window.
#[derive(Clone)]
struct Model {
    m: Vec<u8>,
    s: Vec<isize>,
    f: Vec<u64>,
}

fn cell(m: &[u8], k: usize) -> isize {
    isize::from_ne_bytes(m[k..k + 8].try_into().unwrap())
}

fn put(m: &mut [u8], k: usize, v: isize) {
    m[k..k + 8].copy_from_slice(&v.to_ne_bytes());
}

/// Run word `w` (compiled or not) with `args`, compare memory and stacks.
fn step(wk: &mut Wk, b: &mut Bench, w: &str, compiled: bool, args: &[isize], fargs: &[f64], exp: &Model, key: &str) -> CaseResult {
    wk.note(key);
    let vm = &mut b.vm;
    vm.s_stack().reset();
    vm.f_stack().reset();
    for x in args {
        vm.s_stack().push(*x);
    }
    for x in fargs {
        vm.f_stack().push(*x);
    }
    clear_out(vm);
    let k = OPS.iter().position(|x| *x == w).unwrap();
    let text = if compiled { format!("w{}", k) } else { w.to_string() };
    eval(vm, &text);
    let o = obs(vm);
    b.run += 1;
    wk.trans(1);
    let i = b.a - vm.data_space().start();
    let got = &mem(vm)[i..i + exp.m.len()];
    if o.err != 0 {
        let e = o.err;
        recover(vm);
        vm.set_error(None);
        return fail(key, format!("error {}", e));
    }
    if got != &exp.m[..] {
        let j = got.iter().zip(&exp.m).position(|(x, y)| x != y).unwrap();
        return fail(key, format!("byte {} is {:02x}, not {:02x}", j, got[j], exp.m[j]));
    }
    if o.s != exp.s || o.f != exp.f {
        return fail(key, format!("left {:?} {:?}, expected {:?} {:?}", o.s, o.f, exp.s, exp.f));
    }
    Ok(())
}

fn pattern(n: usize, k: u64) -> Vec<u8> {
    (0..n as u64).map(|i| ((i + k * 7 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 55) as u8).collect()
}

fn load(b: &mut Bench, m: &[u8]) {
    let a = b.a;
    poke(&mut b.vm, a, m);
}

/// move: every source, destination and length in a window, at each alignment.
fn p_move(wk: &mut Wk, win: usize, i: u64) -> CaseResult {
    let w1 = win as u64 + 1;
    let (n, d, s) = ((i % w1) as usize, (i / w1 % w1) as usize, (i / w1 / w1 % w1) as usize);
    let al = (i / w1 / w1 / w1 % 8) as usize;
    if s + n > win || d + n > win {
        return Ok(());
    }
    let mut b = bench(wk);
    let m0 = pattern(W, i);
    load(&mut b, &m0);
    let mut exp = Model { m: m0.clone(), s: vec![], f: vec![] };
    let (so, dof) = (16 + al + s, 16 + al + d);
    exp.m.copy_within(so..so + n, dof);
    let key = format!("start+{} start+{} {} move", so, dof, n);
    let args = [(b.a + so) as isize, (b.a + dof) as isize, n as isize];
    wk.state(H::new().u(i));
    wk.trace();
    let r = step(wk, &mut b, "move", i % 2 == 1, &args, &[], &exp, &key);
    wk.store.insert(0, b);
    r
}

/// fill: every place, length and some characters.
const CHARS: &[isize] = &[0, 1, 32, 65, 127, 128, 255, 256, 0x141, -1, isize::MIN, isize::MAX];

fn p_fill(wk: &mut Wk, i: u64) -> CaseResult {
    let c = CHARS[(i % 12) as usize];
    let at = 8 + (i / 12 % 20) as usize;
    let n = (i / 240 % 30) as isize - 3;
    let mut b = bench(wk);
    let m0 = pattern(W, i);
    load(&mut b, &m0);
    let mut exp = Model { m: m0, s: vec![], f: vec![] };
    for k in 0..n.max(0) as usize {
        exp.m[at + k] = c as u8;
    }
    let key = format!("start+{} {} {} fill", at, n, c);
    let args = [(b.a + at) as isize, n, c];
    wk.state(H::new().u(i));
    wk.trace();
    let r = step(wk, &mut b, "fill", i / 7200 == 1, &args, &[], &exp, &key);
    wk.store.insert(0, b);
    r
}

const VALS: &[isize] = &[0, 1, -1, 255, 256, -256, isize::MAX, isize::MIN, 0x0102030405060708, -0x0102030405060708];

/// One word on the cells of the window: (word, at, value index).
fn apply(w: &str, at: usize, v: isize, u: isize, base: usize, m: &mut Model) -> (Vec<isize>, Vec<f64>) {
    let a = (base + at) as isize;
    match w {
        "!" => {
            put(&mut m.m, at, v);
            (vec![v, a], vec![])
        }
        "c!" => {
            m.m[at] = v as u8;
            (vec![v, a], vec![])
        }
        "+!" => {
            let x = cell(&m.m, at).wrapping_add(v);
            put(&mut m.m, at, x);
            (vec![v, a], vec![])
        }
        "2!" => {
            put(&mut m.m, at, v);
            put(&mut m.m, at + 8, u);
            (vec![u, v, a], vec![])
        }
        "on" => {
            put(&mut m.m, at, -1);
            (vec![a], vec![])
        }
        "off" => {
            put(&mut m.m, at, 0);
            (vec![a], vec![])
        }
        "f!" => {
            // the address is rounded up to an aligned one
            let t = (at + 7) & !7;
            put(&mut m.m, t, (v as f64 + 0.5).to_bits() as isize);
            (vec![(base + t) as isize], vec![v as f64 + 0.5])
        }
        "@" => {
            m.s = vec![cell(&m.m, at)];
            (vec![a], vec![])
        }
        "c@" => {
            m.s = vec![m.m[at] as isize];
            (vec![a], vec![])
        }
        "2@" => {
            m.s = vec![cell(&m.m, at + 8), cell(&m.m, at)];
            (vec![a], vec![])
        }
        "f@" => {
            let t = (at + 7) & !7;
            m.f = vec![cell(&m.m, t) as u64];
            (vec![(base + t) as isize], vec![])
        }
        "count" => {
            m.s = vec![a + 1, m.m[at] as isize];
            (vec![a], vec![])
        }
        "/string" => {
            m.s = vec![a.wrapping_add(u), v.wrapping_sub(u)];
            (vec![a, v, u], vec![])
        }
        "bounds" => {
            m.s = vec![a.wrapping_add(v), a];
            (vec![a, v], vec![])
        }
        "move" => {
            let n = (v & 15) as usize;
            let d = 16 + (u & 15) as usize;
            m.m.copy_within(at..at + n, d);
            (vec![a, (base + d) as isize, n as isize], vec![])
        }
        "fill" => {
            let n = (v & 15) as usize;
            for k in 0..n {
                m.m[at + k] = u as u8;
            }
            (vec![a, n as isize, u], vec![])
        }
        _ => panic!("{}", w),
    }
}

const CELLW: &[&str] =
    &["!", "c!", "+!", "2!", "on", "off", "f!", "@", "c@", "2@", "f@", "count", "/string", "bounds", "move", "fill"];

fn p_cells(wk: &mut Wk, i: u64) -> CaseResult {
    let n = CELLW.len() as u64;
    let w = CELLW[(i % n) as usize];
    let at = 8 + (i / n % 24) as usize;
    let v = VALS[(i / n / 24 % 10) as usize];
    let u = VALS[(i / n / 240 % 10) as usize];
    let compiled = i / n / 2400 == 1;
    let mut b = bench(wk);
    let m0 = pattern(W, i);
    load(&mut b, &m0);
    let mut exp = Model { m: m0, s: vec![], f: vec![] };
    let (args, fargs) = apply(w, at, v, u, b.a, &mut exp);
    let key = format!("start+{} {} with {} and {}", at, w, v, u);
    wk.state(H::new().u(i));
    wk.trace();
    let r = step(wk, &mut b, w, compiled, &args, &fargs, &exp, &key);
    wk.store.insert(0, b);
    r
}

/// Histories of words on overlapping cells of a small window.
const PLACES: &[usize] = &[16, 17, 20, 24];

fn history(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    let ws: &[&str] = &["!", "c!", "+!", "2!", "on", "off", "@", "c@", "2@", "move", "fill"];
    let per = (ws.len() * PLACES.len()) as u64;
    let ops = digits(i, per, n);
    let mut b = bench(wk);
    let m0 = pattern(W, 3);
    load(&mut b, &m0);
    let mut m = m0;
    let mut key = String::new();
    let mut r = Ok(());
    for (k, o) in ops.iter().enumerate() {
        let w = ws[o % ws.len()];
        let at = PLACES[o / ws.len()];
        let v = (k as isize + 1) * 0x1112_1314_1516_1702 + 3;
        let u = v.rotate_left(13) + 5;
        let mut exp = Model { m: m.clone(), s: vec![], f: vec![] };
        let (args, fargs) = apply(w, at, v, u, b.a, &mut exp);
        key += &format!("start+{} {} | ", at, w);
        r = step(wk, &mut b, w, k % 2 == 1, &args, &fargs, &exp, &key);
        if r.is_err() {
            break;
        }
        m = exp.m;
    }
    wk.state(H::new().u(n as u64).u(i));
    wk.trace();
    wk.store.insert(0, b);
    r
}

/// Counted strings built by appending pieces: every triple of lengths at each alignment.
fn strings(wk: &mut Wk, i: u64) -> CaseResult {
    let l = [(i % 9) as usize, (i / 9 % 9) as usize, (i / 81 % 9) as usize];
    let al = (i / 729 % 8) as usize;
    let overlap = i / 5832 == 1; // pieces taken out of the string itself
    let mut b = bench(wk);
    let mut m = pattern(W, i);
    m[8 + al] = 4; // a counted string of four characters
    load(&mut b, &m);
    let mut key = format!("a string of 4 at start+{}", 8 + al);
    let mut r = Ok(());
    for (k, n) in l.iter().enumerate() {
        let from = if overlap { 8 + al + 1 + k } else { 40 + 5 * k };
        let mut e = m.clone();
        let len = e[8 + al] as usize;
        if 8 + al + 1 + len + n > if overlap { W } else { 40 } {
            continue;
        }
        e.copy_within(from..from + n, 8 + al + 1 + len);
        e[8 + al] += *n as u8;
        key += &format!(" | start+{} {} append", from, n);
        let exp = Model { m: e.clone(), s: vec![], f: vec![] };
        let args = [(b.a + from) as isize, *n as isize, (b.a + 8 + al) as isize];
        r = step(wk, &mut b, "append", k == 1, &args, &[], &exp, &key);
        if r.is_err() {
            break;
        }
        // count shows it, /string walks through it
        let c = Model { m: e.clone(), s: vec![(b.a + 9 + al) as isize, e[8 + al] as isize], f: vec![] };
        let at = (b.a + 8 + al) as isize;
        r = step(wk, &mut b, "count", k == 0, &[at], &[], &c, &key);
        if r.is_err() {
            break;
        }
        m = e;
    }
    wk.state(H::new().u(i));
    wk.trace();
    wk.store.insert(0, b);
    r
}

/// Long moves and fills: every length up to 600, three overlaps.
fn long(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i % 1300) as usize;
    let (s, d) = [(100usize, 101usize), (101, 100), (100, 1500), (107, 100), (100, 163)][(i / 1300) as usize];
    let mut b = bench(wk);
    let m0 = pattern(4000, i);
    load(&mut b, &m0);
    let mut exp = Model { m: m0, s: vec![], f: vec![] };
    exp.m.copy_within(s..s + n, d);
    let key = format!("start+{} start+{} {} move", s, d, n);
    let args = [(b.a + s) as isize, (b.a + d) as isize, n as isize];
    let mut r = step(wk, &mut b, "move", n % 2 == 0, &args, &[], &exp, &key);
    if r.is_ok() {
        for k in 0..n {
            exp.m[s + k] = n as u8;
        }
        let args = [(b.a + s) as isize, n as isize, n as isize];
        r = step(wk, &mut b, "fill", n % 2 == 1, &args, &[], &exp, &format!("start+{} {} {} fill", s, n, n));
    }
    wk.state(H::new().u(i));
    wk.trace();
    wk.store.insert(0, b);
    r
}

/// Moves and fills of lengths around larger powers of two.
fn longer(wk: &mut Wk, i: u64) -> CaseResult {
    let e = 11 + i % 4 + 1; // 2^12 .. 2^15
    let n = (1usize << e) + (i / 4 % 5) as usize - 2;
    let (s, d) = [(100usize, 101usize), (101, 100), (100, 100 + n / 2), (100 + n / 2, 100), (108, 100), (100, 108), (100, 356), (356, 100), (100, 1124), (100, 4196), (4196, 100), (100, 8292)][(i / 20) as usize];
    let top = s.max(d) + n + 100;
    let mut b = bench(wk);
    let from = b.a - b.vm.data_space().start();
    if from + top > b.vm.data_space().limit() - b.vm.data_space().start() {
        wk.store.insert(0, b);
        return Ok(());
    }
    let m0 = pattern(top, i);
    load(&mut b, &m0);
    let mut exp = Model { m: m0, s: vec![], f: vec![] };
    exp.m.copy_within(s..s + n, d);
    let key = format!("start+{} start+{} {} move", s, d, n);
    let args = [(b.a + s) as isize, (b.a + d) as isize, n as isize];
    let mut r = step(wk, &mut b, "move", n % 2 == 0, &args, &[], &exp, &key);
    if r.is_ok() {
        exp.m[s..s + n].fill(n as u8);
        let args = [(b.a + s) as isize, n as isize, n as isize];
        r = step(wk, &mut b, "fill", n % 2 == 1, &args, &[], &exp, &format!("start+{} {} {} fill", s, n, n));
    }
    wk.state(H::new().u(i));
    wk.trace();
    wk.store.insert(0, b);
    r
}

/// A counted string of every length gets every number of characters it can take.
fn full(wk: &mut Wk, i: u64) -> CaseResult {
    let (len, n) = ((i % 256) as usize, (i / 256) as usize);
    if len + n > 255 {
        return Ok(());
    }
    let mut b = bench(wk);
    let mut m = pattern(700, i);
    m[16] = len as u8;
    load(&mut b, &m);
    m.copy_within(400..400 + n, 17 + len);
    m[16] = (len + n) as u8;
    let key = format!("start+400 {} start+16 append, where a string of {} is", n, len);
    let exp = Model { m, s: vec![], f: vec![] };
    let args = [(b.a + 400) as isize, n as isize, (b.a + 16) as isize];
    let mut r = step(wk, &mut b, "append", i % 2 == 1, &args, &[], &exp, &key);
    if r.is_ok() {
        let c = Model { m: exp.m, s: vec![(b.a + 17) as isize, (len + n) as isize], f: vec![] };
        let at = (b.a + 16) as isize;
        r = step(wk, &mut b, "count", i % 2 == 0, &[at], &[], &c, &key);
    }
    wk.state(H::new().u(i));
    wk.trace();
    wk.store.insert(0, b);
    r
}

pub fn property(t: bool) -> Property {
    let win = if t { 32 } else { 24 };
    let w1 = win as u64 + 1;
    let mut scopes = vec![
        Scope::new(
            &format!("move: every source, destination and length in {} bytes x 8 alignments", win),
            w1 * w1 * w1 * 8,
            256,
            move |wk, i| p_move(wk, win, i),
        ),
        Scope::new("fill: every place and length x 12 characters", 14400, 256, p_fill),
        Scope::new("16 words x 24 places x 100 values", 16 * 4800, 256, p_cells),
        Scope::new("counted strings of three appended pieces", 11664, 256, strings),
        Scope::new("moves and fills of every length up to 1299", 6500, 16, long),
        Scope::new("moves and fills of lengths around 2^12 to 2^15, 12 distances", 240, 4, longer),
        Scope::new("counted strings of every length, every number of characters appended", 65536, 64, full),
    ];
    for n in 2..=(if t { 5 } else { 4 }) {
        scopes.push(Scope::new(&format!("histories of {} words on overlapping cells", n), 44u64.pow(n as u32), 256, move |wk, i| {
            history(wk, n, i)
        }));
    }
    Property {
        id: "C25",
        assumptions: vec![
            "f@ and f! are used at aligned places; a counted string stays shorter than 256 characters".into(),
        ],
        scopes,
    }
}
