//! C15: number output: exact digits, field widths, order; printed integers read back.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;

fn set_base(vm: &mut VM, base: isize) {
    let a = vm.data_space().system_variables().base_addr();
    unsafe { vm.data_space().put_isize(base, a) };
}

fn base(vm: &mut VM) -> isize {
    let a = vm.data_space().system_variables().base_addr();
    unsafe { vm.data_space().get_isize(a) }
}

/// Digits by repeated division: signed in base ten, the bits of the cell otherwise.
fn show(v: isize, b: isize) -> String {
    let (mut m, neg) = if b == 10 { ((v as i128).abs() as u128, v < 0) } else { (v as usize as u128, false) };
    let mut s = vec![];
    loop {
        s.push(b"0123456789ABCDEF"[(m % b as u128) as usize]);
        m /= b as u128;
        if m == 0 {
            break;
        }
    }
    if neg {
        s.push(b'-')
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}

fn right(s: String, w: isize) -> String {
    let n = s.len() as isize;
    let mut o = String::new();
    let mut k = n;
    while k < w {
        o.push(' ');
        k += 1;
    }
    o + &s
}

pub fn values() -> Vec<isize> {
    let mut v: Vec<isize> = (-300..=300).collect();
    for k in 0..64 {
        for d in -2i64..=2 {
            v.push((1u64 << k).wrapping_add(d as u64) as isize);
            v.push((1u64 << k).wrapping_add(d as u64).wrapping_neg() as isize);
        }
    }
    let mut p: i64 = 1;
    for _ in 0..19 {
        for d in [-1, 0, 1] {
            v.push((p + d) as isize);
            v.push((-p + d) as isize);
        }
        p = p.wrapping_mul(10);
    }
    for d in 0..16 {
        v.push((0x1111_1111_1111_1111u64.wrapping_mul(d)) as isize);
        v.push((0x0123_4567_89ab_cdefu64.rotate_left(4 * d as u32)) as isize);
    }
    v.sort();
    v.dedup();
    v
}

fn machine(wk: &mut Wk) -> VM {
    let mut vm = wk.take_vm();
    if !wk.store.contains_key(&0) || room(&mut vm) < 4096 {
        vm = new_vm();
        reset(&mut vm);
        eval(&mut vm, ": d1 . ; : d2 .r ; : d3 h. ; : d4 h.r ; variable v : d5 v ! v ? ; : d6 f.r ; : d7 f. ;");
        wk.store.insert(0, Box::new(()));
    }
    reset(&mut vm);
    vm
}

const NW: i64 = 72;

fn ints(wk: &mut Wk, v: isize, b: isize, form: usize, w: isize, compiled: bool) -> CaseResult {
    let mut vm = machine(wk);
    set_base(&mut vm, b);
    vm.s_stack().push(99);
    vm.s_stack().push(v);
    let good = [2, 8, 10, 16].contains(&b);
    let (word, want, ok) = match form {
        0 => (if compiled { "d1" } else { "." }, if good { show(v, b) + " " } else { String::new() }, good),
        1 => (if compiled { "d2" } else { ".r" }, if good { right(show(v, b), w) } else { String::new() }, good),
        2 => (if compiled { "d3" } else { "h." }, show(v, 16) + " ", true),
        3 => (if compiled { "d4" } else { "h.r" }, right(show(v, 16), w), true),
        _ => (if compiled { "d5" } else { "v ! v ?" }, if good { show(v, b) + " " } else { String::new() }, good),
    };
    if form == 1 || form == 3 {
        vm.s_stack().push(w);
    }
    let key = format!("{} {} (width {}) in base {}", v, word, w, b);
    wk.note(&key);
    eval(&mut vm, word);
    let o = obs(&mut vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().i(v).i(b).u(form as u64).i(w).u(compiled as u64));
    if ok {
        if o.err != 0 || o.s != [99] || o.out != want {
            return fail(key, format!("expected {:?}, got {:?} {:?} error {}", want, o.out, o.s, o.err));
        }
        if base(&mut vm) != b {
            return fail(key, "the base changed");
        }
        // read it back
        if form == 0 {
            let t = o.out.trim_end().to_string();
            if vm.find(&t).is_none() {
                reset(&mut vm);
                set_base(&mut vm, b);
                eval(&mut vm, &o.out);
                let o = obs(&mut vm);
                if o.err != 0 || o.s != [v] {
                    return fail(key, format!("printed {:?}, read back as {:?}", t, o.s));
                }
            }
        }
    } else if o.err != -21 || o.out.trim_end() != want {
        return fail(key, format!("expected error -21, got {:?} error {}", o.out, o.err));
    }
    wk.put_vm(vm);
    Ok(())
}

fn floats() -> Vec<f64> {
    let mut v = vec![
        0.0, -0.0, 0.5, 1.5, 2.5, 0.125, 0.05, 0.005, 0.0005, 0.25, 9.5, 9.95, 9.9999999, 9.99999995, 0.1, 0.2, 0.3, 1.0 / 3.0,
        2.0 / 3.0, 1e-7, 5e-8, 4.9e-8, 1e15, 1e16, 1e17, 1e18, 1e20, 1e22, 1e23, 1e100, 1.7976931348623157e308, 5e-324,
        2.2250738585072014e-308, 123456.789, 3.141592653589793, 999999.9999999, 4503599627370496.5, 9007199254740993.0,
        f64::INFINITY, f64::NAN, 1.0000000000000002, 0.99999999999999989,
    ];
    let n = v.len();
    for k in 0..n {
        v.push(-v[k]);
    }
    for k in 0..60 {
        v.push(k as f64 + 0.5);
        v.push(10f64.powi(k - 30));
        v.push(k as f64 / 8.0);
    }
    v
}

fn float_out(wk: &mut Wk, r: f64, dec: isize, w: isize, form: usize) -> CaseResult {
    let mut vm = machine(wk);
    vm.f_stack().push(7.0);
    vm.f_stack().push(r);
    vm.s_stack().push(99);
    let word = ["f.r", "d6", "f.", "d7"][form];
    if form < 2 {
        vm.s_stack().push2(w, dec);
    }
    let p = if form < 2 { dec.min(17) as usize } else { 7 };
    let t = format!("{:.*}", p, r);
    let want = if form < 2 { right(t, w) } else { t + " " };
    let key = format!("{:?} {} width {} decimals {}", r, word, w, dec);
    wk.note(&key);
    eval(&mut vm, word);
    let o = obs(&mut vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(r.to_bits()).i(dec).i(w).u(form as u64));
    if o.err != 0 || o.s != [99] || o.f != [7f64.to_bits()] || o.out != want {
        return fail(key, format!("expected {:?}, got {:?} {:?} error {}", want, o.out, o.s, o.err));
    }
    wk.put_vm(vm);
    Ok(())
}

/// Sequences of output words: what they show appears in order, in the current base.
const ITEMS: u64 = 17;
fn sequence(wk: &mut Wk, n: usize, compiled: bool, i: u64) -> CaseResult {
    let mut b = 10isize;
    let mut want = String::new();
    let mut src = String::new();
    for d in digits(i, ITEMS, n) {
        let num = |v: isize, b: isize| show(v, b);
        match d {
            0 => {
                src += "bl 0 - . ";
                want += &(num(32, b) + " ")
            }
            1 => {
                src += "true #5 .r ";
                want += &right(num(-1, b), 5)
            }
            2 => {
                src += "bl emit ";
                want += " "
            }
            3 => {
                src += "space ";
                want += " "
            }
            4 => {
                src += "#2 spaces ";
                want += "  "
            }
            5 => {
                src += "cr ";
                want += "\n"
            }
            6 => {
                src += if compiled { ".\" Qb\" " } else { ".( Qb) " };
                want += "Qb"
            }
            7 => {
                src += "str type ";
                want += "s*t"
            }
            8 => {
                src += "bl h. ";
                want += "20 "
            }
            9 => {
                src += "hex ";
                b = 16
            }
            10 => {
                src += "decimal ";
                b = 10
            }
            11 => {
                src += "pi f. ";
                want += "3.1415927 "
            }
            12 => {
                src += "#8 base ! ";
                b = 8
            }
            13 => {
                src += "#2 base ! ";
                b = 2
            }
            14 => {
                src += "bl vv ! vv ? ";
                want += &(num(32, b) + " ")
            }
            15 => {
                src += "true h. ";
                want += "FFFFFFFFFFFFFFFF "
            }
            _ => {
                src += "#7 spaces ";
                want += "       "
            }
        }
    }
    src = src.replace("0 - ", "");
    let mut vm = wk.take_vm();
    if !wk.store.contains_key(&1) || room(&mut vm) < 8192 {
        vm = new_vm();
        reset(&mut vm);
        eval(&mut vm, "variable vv : str s\" s*t\" ;");
        wk.store.insert(1, Box::new(()));
    }
    reset(&mut vm);
    let key = format!("{}{}", src, if compiled { "(compiled)" } else { "" });
    wk.note(&key);
    if compiled {
        eval(&mut vm, &format!("marker m : w {} ;", src));
        eval(&mut vm, "w decimal m");
    } else {
        eval(&mut vm, &src);
    }
    let o = obs(&mut vm);
    wk.trans(n as u64);
    wk.trace();
    wk.state(H::new().u(n as u64).u(i).u(compiled as u64));
    // whether .( shows the blank before its text is left open
    let sq = |mut x: String| {
        while !compiled && x.contains(" Q") {
            x = x.replace(" Q", "Q")
        }
        x
    };
    let (got, want) = (sq(o.out.clone()), sq(want));
    if o.err != 0 || !o.s.is_empty() || got != want {
        return fail(key, format!("expected {:?}, got {:?} {:?} error {}", want, o.out, o.s, o.err));
    }
    wk.put_vm(vm);
    Ok(())
}

fn emits(wk: &mut Wk, i: u64) -> CaseResult {
    let c = i as isize;
    let mut vm = machine(wk);
    vm.s_stack().push(c);
    eval(&mut vm, "emit space 65 emit");
    let o = obs(&mut vm);
    let key = format!("{} emit", c);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().i(c));
    let first = o.out.chars().next();
    if o.err != 0 || !o.s.is_empty() || first != Some((c & 255) as u8 as char) || !o.out.ends_with(" A") || o.out.chars().count() != 3 {
        return fail(key, format!("{:?} error {}", o.out, o.err));
    }
    wk.put_vm(vm);
    Ok(())
}

/// Texts of every length, shown behind what is there already.
fn types(wk: &mut Wk, n: usize, form: u64) -> CaseResult {
    let mut vm = machine(wk);
    let a = vm.data_space().here() + 600;
    if a + n + 1000 > vm.data_space().limit() {
        wk.put_vm(vm);
        return Ok(());
    }
    let t: String = (0..n).map(|k| (if form < 3 { 33 + (k * 7 % 90) as u8 } else { 48 + (k * 7 % 44) as u8 }) as char).collect();
    if form < 3 {
        poke(&mut vm, a, t.as_bytes());
        vm.s_stack().push2(a as isize, n as isize);
    }
    let (line, want): (String, String) = match form {
        0 => ("type".into(), t),
        1 => ("65 emit type 66 emit".into(), format!("A{}B", t)),
        2 => ("2dup type type".into(), t.clone() + &t),
        3 => (format!("65 emit .( {}) 66 emit", t), format!("A{}B", t)),
        4 => (format!("marker -t : t 65 emit .\" {}\" 66 emit ; t -t", t), format!("A{}B", t)),
        _ => (format!("marker -t : t s\" {}\" type 66 emit ; t -t", t), format!("{}B", t)),
    };
    eval(&mut vm, &line);
    let o = obs(&mut vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(n as u64).u(form));
    // whether .( shows the blank before its text is left open
    let got = if form == 3 { o.out.replace(' ', "") } else { o.out.clone() };
    if o.err != 0 || !o.s.is_empty() || got != want {
        let l: String = line.chars().take(40).collect();
        return fail(format!("{} on {} characters", l, n), format!("{} characters of {}, error {}", got.len(), want.len(), o.err));
    }
    wk.put_vm(vm);
    Ok(())
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// What flush-output and flush-to-err send: the texts collected so far, in order, each once.
fn flushes(wk: &mut Wk, i: u64) -> CaseResult {
    use std::io::{Read, Seek, Write};
    use std::os::unix::io::AsRawFd;
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let chunks = ["", "A", "\u{e9}\u{4e2d}", "{} %s", "a  b", "x"];
    let mut d = i;
    let mut next = |n: u64| {
        let r = d % n;
        d /= n;
        r as usize
    };
    let (mut line, mut want, mut left) = (String::new(), [String::new(), String::new()], String::new());
    for _ in 0..3 {
        let c = chunks[next(6)];
        let c = if c == "x" { "x".repeat(9000) } else { c.into() };
        let to = next(3);
        line += &format!("marker -t : t .\" {}\" ; t -t {} ", c, ["flush-output", "flush-to-err", "noop"][to]);
        left += &c;
        if to < 2 {
            want[to] += &left;
            left.clear();
        }
    }
    let mut vm = machine(wk);
    let key: String = format!("flushes {}: {}", i, line.replace(&"x".repeat(9000), "x..."));
    wk.note(&key);
    let path = std::env::temp_dir().join(format!("mc-flush-{}-{:?}", std::process::id(), std::thread::current().id()));
    let mut files = vec![];
    {
        let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
        let mut saved = vec![];
        std::io::stdout().flush().unwrap();
        for fd in 1..3 {
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).unwrap();
            std::fs::remove_file(&path).unwrap();
            unsafe {
                saved.push(dup(fd));
                dup2(f.as_raw_fd(), fd);
            }
            files.push(f);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| eval(&mut vm, &line)));
        let _ = std::io::stdout().flush();
        for fd in 1..3 {
            unsafe {
                dup2(saved[fd as usize - 1], fd);
                close(saved[fd as usize - 1]);
            }
        }
        if let Err(e) = r {
            std::panic::resume_unwind(e);
        }
    }
    wk.trans(6);
    wk.trace();
    wk.state(H::new().u(i));
    let o = obs(&mut vm);
    for k in 0..2 {
        let mut got = String::new();
        files[k].rewind().unwrap();
        files[k].read_to_string(&mut got).unwrap();
        // whether an empty text makes an empty line is left open
        if got.replace('\n', "") != want[k] {
            return fail(key, format!("file descriptor {} got {} bytes, expected {}", k + 1, got.len(), want[k].len()));
        }
    }
    if o.err != 0 || !o.s.is_empty() || o.out != left {
        return fail(key, format!("error {}, stack {:?}, {} characters are left, expected {}", o.err, o.s, o.out.len(), left.len()));
    }
    wk.put_vm(vm);
    Ok(())
}

/// Fields and runs of spaces of large widths.
fn wide(wk: &mut Wk, w: isize, form: u64) -> CaseResult {
    let mut vm = machine(wk);
    let (line, want) = match form {
        0 => ("-123 swap .r", right("-123".into(), w)),
        1 => ("255 swap h.r", right("FF".into(), w)),
        2 => ("2 -1.25e f.r", right("-1.25".into(), w)),
        _ => ("spaces 65 emit", " ".repeat(w as usize) + "A"),
    };
    vm.s_stack().push(w);
    eval(&mut vm, line);
    let o = obs(&mut vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().i(w).u(form + 9));
    if o.err != 0 || !o.s.is_empty() || o.out != want {
        return fail(format!("{} {}", w, line), format!("{} characters, error {}", o.out.len(), o.err));
    }
    wk.put_vm(vm);
    Ok(())
}

fn spaces(wk: &mut Wk, i: u64) -> CaseResult {
    let n = i as isize - 20;
    let mut vm = machine(wk);
    vm.s_stack().push(n);
    eval(&mut vm, "spaces");
    let o = obs(&mut vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().i(n));
    if o.err != 0 || !o.s.is_empty() || o.out != " ".repeat(n.max(0) as usize) {
        return fail(format!("{} spaces", n), format!("{:?} error {}", o.out, o.err));
    }
    wk.put_vm(vm);
    Ok(())
}

pub fn property(t: bool) -> Property {
    let v = values();
    let nv = v.len() as u64;
    let (v1, v2) = (v.clone(), v.clone());
    let bases: Vec<isize> = vec![2, 8, 10, 16, 0, 1, -1, 3, 7, 9, 11, 15, 17, 36, isize::MAX, isize::MIN, -10, 4, 32, 64, 100, 256];
    let nb = bases.len() as u64;
    let b2: [isize; 4] = [2, 8, 10, 16];
    let fs = floats();
    let nf = fs.len() as u64;
    let f2 = fs.clone();
    let mut scopes = vec![
        Scope::new("every word x values x bases", nv * nb * 5 * 2, 1024, move |wk, i| {
            let j = i / 2;
            ints(wk, v1[(j % nv) as usize], bases[(j / nv % nb) as usize], (j / nv / nb) as usize, 6, i % 2 == 1)
        }),
        Scope::new("field widths -3..68 x values x bases", nv * NW as u64 * 4 * 2, 4096, move |wk, i| {
            let j = i / 2;
            let w = (j / nv % NW as u64) as isize - 3;
            ints(wk, v2[(j % nv) as usize], b2[(j / nv / NW as u64) as usize], if i % 2 == 0 { 1 } else { 3 }, w, false)
        }),
        Scope::new("floats x decimals 0..20 x widths 0..40", nf * 21 * 41 * 2, 2048, move |wk, i| {
            let j = i / 2;
            float_out(wk, fs[(j % nf) as usize], (j / nf % 21) as isize, (j / nf / 21) as isize, (i % 2) as usize)
        }),
        Scope::new("f.", nf * 2, 64, move |wk, i| float_out(wk, f2[(i / 2) as usize], 7, 0, 2 + (i % 2) as usize)),
        Scope::new("extreme field widths", 5 * 8 * 2, 16, |wk, i| {
            let w = [-1, -1000, isize::MIN, isize::MIN + 1, 300, 1000, 65536, 0][(i % 8) as usize];
            let x = (i / 8 % 5) as isize * 1000 - 2000;
            if i / 40 == 0 {
                ints(wk, x, 10, 1, w, false)
            } else {
                float_out(wk, x as f64, 3, w, 0)
            }
        }),
        Scope::new("three texts and where each is sent", 18 * 18 * 18, 64, flushes),
        Scope::new("emit 0..127", 128, 16, emits),
        Scope::new("texts of every length to 2199", 13200, 32, |wk, i| types(wk, (i / 6) as usize, i % 6)),
        Scope::new("texts of lengths around 2^12 to 2^15 and multiples of 1000", 40 * 6 + 60 * 6, 4, |wk, i| {
            let n = if i < 240 { (1usize << (12 + i / 60)) - 5 + (i / 6 % 10) as usize } else { (i as usize - 240) / 6 * 1000 };
            types(wk, n, i % 6)
        }),
        Scope::new("widths to 1299", 5200, 32, |wk, i| wide(wk, (i / 4) as isize, i % 4)),
        Scope::new("widths around 2^11 to 2^16", 6 * 5 * 4, 4, |wk, i| wide(wk, (1isize << (11 + i / 20)) - 2 + (i / 4 % 5) as isize, i % 4)),
        Scope::new("spaces -20..200", 221, 16, spaces),
    ];
    for n in 1..=(if t { 6 } else { 5 }) {
        for c in [false, true] {
            if c && n == 6 {
                continue;
            }
            scopes.push(Scope::new(
                &format!("all sequences of {} output words, {}", n, if c { "compiled" } else { "interpreted" }),
                ITEMS.pow(n as u32),
                if n >= 4 { 4096 } else { 64 },
                move |wk, i| sequence(wk, n, c, i),
            ));
        }
    }
    Property {
        id: "C15",
        assumptions: vec![
            "a negative number of decimals is left open".into(),
            "the digits of a floating-point number are those of the host's exact decimal conversion".into(),
        ],
        scopes,
    }
}
