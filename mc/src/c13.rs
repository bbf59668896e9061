//! C13: integer literals: every token has the value its digits spell in the current base.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;

const A: &[&str] = &["0", "1", "7", "9", "a", "F", "g", "$", "%", "#", "+", "-", "'", ".", "e", "é"];

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Lit {
    Int(isize),
    Float(f64, bool), // value, exact
    None,
}

/// Reference reading of a token that is not in the dictionary.
pub fn literal(tok: &str, base: isize) -> Lit {
    let b = tok.as_bytes();
    if b.len() == 3 && b[0] == b'\'' && b[2] == b'\'' {
        return Lit::Int(b[1] as isize);
    }
    let (mut p, mut base) = (0, base as i128);
    match b.get(0) {
        Some(b'%') => {
            base = 2;
            p = 1
        }
        Some(b'#') => {
            base = 10;
            p = 1
        }
        Some(b'$') => {
            base = 16;
            p = 1
        }
        _ => {}
    }
    let mut neg = false;
    if let Some(c @ (b'+' | b'-')) = b.get(p) {
        neg = *c == b'-';
        p += 1;
    }
    let ds = &b[p..];
    let dig = |c: u8| -> i128 {
        match c {
            b'0'..=b'9' => (c - b'0') as i128,
            b'a'..=b'f' => (c - b'a') as i128 + 10,
            b'A'..=b'F' => (c - b'A') as i128 + 10,
            _ => i128::MAX,
        }
    };
    if !ds.is_empty() && ds.iter().all(|c| dig(*c) < base) {
        let mut v: i128 = 0;
        for c in ds {
            v = (v * base + dig(*c)) & 0xffff_ffff_ffff_ffff;
        }
        let v = v as u64 as i64 as isize;
        return Lit::Int(if neg { v.wrapping_neg() } else { v });
    }
    float(tok)
}

/// sign digits [ . digits ] E|e [ sign ] digits
pub fn float(tok: &str) -> Lit {
    let b = tok.as_bytes();
    let mut p = 0;
    if let Some(b'+' | b'-') = b.get(p) {
        p += 1;
    }
    let st = p;
    while p < b.len() && b[p].is_ascii_digit() {
        p += 1;
    }
    if p == st {
        return Lit::None;
    }
    let mut limit = std::str::from_utf8(&b[st..p]).unwrap().parse::<i64>().is_err();
    let mut frac = 0;
    if b.get(p) == Some(&b'.') {
        p += 1;
        let f = p;
        while p < b.len() && b[p].is_ascii_digit() {
            p += 1;
        }
        frac = p - f;
        if frac > 0 {
            limit |= std::str::from_utf8(&b[f..p]).unwrap().parse::<i64>().is_err();
        }
    }
    let mant = &tok[..p];
    match b.get(p) {
        Some(b'e' | b'E') => p += 1,
        _ => return Lit::None,
    }
    let e = p;
    let mut neg = false;
    if let Some(c @ (b'+' | b'-')) = b.get(p) {
        neg = *c == b'-';
        p += 1;
    }
    let d = p;
    while p < b.len() && b[p].is_ascii_digit() {
        p += 1;
    }
    if p != b.len() {
        return Lit::None;
    }
    let ev: i64 = if p == d {
        0
    } else {
        match tok[d..].parse::<i64>() {
            Ok(v) => v,
            Err(_) => {
                limit = true;
                0
            }
        }
    };
    if limit {
        return Lit::None;
    }
    let ev = if neg { -ev } else { ev };
    let _ = e;
    let v: f64 = format!("{}e{}", mant.trim_end_matches('.'), ev.max(-100000).min(100000)).parse().unwrap();
    Lit::Float(v, frac == 0 && ev >= 0 && ev <= 22 && mant.len() <= 15)
}

pub fn close(a: f64, b: f64, exact: bool) -> bool {
    if a.to_bits() == b.to_bits() {
        return true;
    }
    if exact || a.is_nan() || b.is_nan() {
        return false;
    }
    // gradual underflow and the last step before overflow
    if a.is_infinite() || b.is_infinite() {
        return a.abs() > 1.79e308 && b.abs() > 1.79e308 && a.is_sign_negative() == b.is_sign_negative();
    }
    (a - b).abs() <= b.abs() * 1e-13 + 1e-322 && a.is_sign_negative() == b.is_sign_negative()
}

fn machine(wk: &mut Wk) -> VM {
    let mut vm = wk.take_vm();
    if room(&mut vm) < 4096 {
        vm = new_vm();
    }
    reset(&mut vm);
    vm
}

fn set_base(vm: &mut VM, base: isize) {
    let a = vm.data_space().system_variables().base_addr();
    unsafe { vm.data_space().put_isize(base, a) };
}

/// Check one token in one base, interpreted or compiled.
pub fn token(wk: &mut Wk, tok: &str, base: isize, compiled: bool) -> CaseResult {
    let mut vm = machine(wk);
    if vm.find(tok).is_some() {
        wk.put_vm(vm);
        return Ok(());
    }
    let want = literal(tok, base);
    let key = format!("{} in base {}{}", tok, base, if compiled { ", compiled" } else { "" });
    wk.note(&key);
    let here = vm.data_space().here();
    if compiled {
        eval(&mut vm, "marker m");
        set_base(&mut vm, base);
        eval(&mut vm, ": w >r >r");
        eval(&mut vm, tok);
        if want != Lit::None {
            if err(&vm) != 0 {
                return fail(key, format!("error {} where {:?} is expected", err(&vm), want));
            }
            eval(&mut vm, "r> r> ;");
        }
    } else {
        set_base(&mut vm, base);
        vm.s_stack().push2(11, 22);
        vm.f_stack().push(3.5);
        eval(&mut vm, tok);
    }
    wk.trans(1);
    wk.trace();
    wk.state(H::new().s(tok).i(base).u(compiled as u64));
    if want == Lit::None {
        let t = vm.last_token().clone().unwrap_or_default();
        let e = err(&vm);
        let o = obs(&mut vm);
        if e != -13 || t != tok {
            return fail(key, format!("expected an undefined word, got error {} at {:?}, {:?}", e, t, o.s));
        }
        if !o.s.is_empty() || !o.f.is_empty() {
            return fail(key, format!("undefined, but the stacks hold {:?} {:?}", o.s, o.f));
        }
        if compiled {
            recover(&mut vm);
            if vm.find("w").is_some() {
                return fail(key, "the failed definition is visible");
            }
        }
    } else {
        if compiled {
            if vm.data_space().here() > here + 1000 {
                return fail(key, "too much space used");
            }
            // the base no longer matters
            set_base(&mut vm, 10);
            vm.s_stack().push2(11, 22);
            vm.f_stack().push(3.5);
            eval(&mut vm, "w");
        }
        let o = obs(&mut vm);
        if o.err != 0 {
            return fail(key, format!("error {} where {:?} is expected", o.err, want));
        }
        let f0 = 3.5f64.to_bits();
        let ok = match want {
            // compiled: the literal is pushed between >r >r and r> r>
            Lit::Int(v) => o.f == [f0] && if compiled { o.s == [v, 11, 22] } else { o.s == [11, 22, v] },
            Lit::Float(v, x) => o.s == [11, 22] && o.f.len() == 2 && o.f[0] == f0 && close(f64::from_bits(o.f[1]), v, x),
            Lit::None => true,
        };
        if !ok {
            return fail(
                key,
                format!("expected {:?}, got {:?} {:?}", want, o.s, o.f.iter().map(|x| f64::from_bits(*x)).collect::<Vec<_>>()),
            );
        }
    }
    if compiled {
        reset(&mut vm);
        eval(&mut vm, "m");
        if err(&vm) != 0 {
            return fail(key, "the marker is not usable");
        }
    }
    wk.put_vm(vm);
    Ok(())
}

const BASES: &[isize] = &[10, 16, 2, 8, 1, 0, -1, 3, 7, 9, 11, 15, 17, 36, isize::MAX, isize::MIN];

fn spelled(i: u64, n: usize) -> String {
    digits(i, A.len() as u64, n).iter().map(|k| A[*k]).collect()
}

/// Long digit strings: wrap-around at every length.
fn long(wk: &mut Wk, i: u64) -> CaseResult {
    let pat = ["1", "9", "7", "f", "10", "f0", "90", "5a", "0", "000000017"][(i % 10) as usize];
    let i = i / 10;
    let n = (i % 330) as usize + 1;
    let i = i / 330;
    let pre = ["", "-", "+", "$", "$-", "%", "%-", "#", "#+"][(i % 9) as usize];
    let base = BASES[(i / 9) as usize % 6];
    let c = i / 9 / 6 == 1;
    let t: String = pat.chars().cycle().take(n).collect();
    token(wk, &format!("{}{}", pre, t), base, c)
}

/// Numbers around every power of two, written in each base with each prefix.
fn values(wk: &mut Wk, i: u64) -> CaseResult {
    let k = i % 64;
    let d = ((i / 64) % 5) as i64 - 2;
    let neg = (i / 320) % 2 == 1;
    let form = (i / 640) % 7;
    let c = i / 640 / 7 == 1;
    let u = (1u64 << k).wrapping_add(d as u64);
    let sg = if neg { "-" } else { "" };
    let (t, base) = match form {
        0 => (format!("{}{}", sg, u), 10),
        1 => (format!("#{}{}", sg, u), 16),
        2 => (format!("{}{:x}", sg, u), 16),
        3 => (format!("${}{:X}", sg, u), 10),
        4 => (format!("{}{:b}", sg, u), 2),
        5 => (format!("%{}{:b}", sg, u), 10),
        _ => (format!("{}{:o}", sg, u), 8),
    };
    let v = if neg { u.wrapping_neg() } else { u } as isize;
    if wk_find(wk, &t) {
        return Ok(());
    }
    if literal(&t, base) != Lit::Int(v) {
        return fail(t, "the reference reading disagrees with the host's formatting");
    }
    token(wk, &t, base, c)
}

fn wk_find(wk: &mut Wk, t: &str) -> bool {
    let mut vm = machine(wk);
    let r = vm.find(t).is_some();
    wk.put_vm(vm);
    r
}

/// A definition takes precedence over the number of the same spelling.
fn shadow(wk: &mut Wk, i: u64) -> CaseResult {
    const T: &[&str] = &["1", "-1", "$ff", "'a'", "%10", "#9", "1e", "007", "beef", "-1.5e3"];
    const D: &[&str] = &[": {} 77 ;", "77 constant {}", "create {} 77 ,", "variable {} 77 {} !"];
    let t = T[(i % 10) as usize];
    let d = D[(i / 10 % 4) as usize];
    let compiled = i / 40 % 2 == 1;
    let base = if i / 80 == 0 { 10 } else { 16 };
    let mut vm = machine(wk);
    let key = format!("{} after {} in base {}, compiled {}", t, d, base, compiled);
    wk.note(&key);
    eval(&mut vm, ": at @ ;");
    eval(&mut vm, "marker m");
    // 77 may itself be a literal of the base
    eval(&mut vm, &d.replace("{}", t));
    set_base(&mut vm, base);
    vm.s_stack().reset();
    if compiled {
        eval(&mut vm, &format!(": w {} ; w", t));
    } else {
        eval(&mut vm, t);
    }
    let mut st = vm.s_stack().as_slice().to_vec();
    if err(&vm) != 0 || st.len() != 1 {
        return fail(key, format!("error {}, stack {:?}", err(&vm), st));
    }
    if i / 10 % 4 >= 2 {
        eval(&mut vm, "@");
        st = vm.s_stack().as_slice().to_vec();
    }
    if st != [77] {
        return fail(key, format!("got {:?}", st));
    }
    wk.trans(2);
    wk.trace();
    wk.state(H::new().u(i));
    eval(&mut vm, "drop m");
    reset(&mut vm);
    // and the number is back
    set_base(&mut vm, base);
    wk.put_vm(vm);
    token(wk, t, base, compiled)
}

pub fn property(t: bool) -> Property {
    let na = A.len() as u64;
    let mut scopes = vec![];
    let lmax = if t { 6 } else { 5 };
    for n in 1..=lmax {
        let nb = if n <= 3 {
            BASES.len()
        } else if n == 4 {
            if t { BASES.len() } else { 8 }
        } else {
            2
        } as u64;
        for c in [false, true] {
            if c && n >= lmax {
                continue;
            }
            scopes.push(Scope::new(
                &format!("all tokens of {} characters in {} bases, {}", n, nb, if c { "compiled" } else { "interpreted" }),
                na.pow(n as u32) * nb,
                if n >= 4 { 4096 } else { 128 },
                move |wk, i| token(wk, &spelled(i / nb, n), BASES[(i % nb) as usize], c),
            ));
        }
    }
    scopes.push(Scope::new("digit strings of 1..330 digits, every prefix", 10 * 330 * 9 * 6 * 2, 512, long));
    scopes.push(Scope::new("numbers around the powers of two, every notation", 640 * 7 * 2, 256, values));
    scopes.push(Scope::new("every single byte as a digit, in bases 0..40", 94 * 41 * 3, 512, |wk, i| {
        let c = (33 + i % 94) as u8 as char;
        let b = (i / 94 % 41) as isize;
        let t = match i / 94 / 41 {
            0 => format!("0{}", c),
            1 => format!("{}1", c),
            _ => format!("$1{}0", c),
        };
        token(wk, &t, b, false)
    }));
    scopes.push(Scope::new("quoted characters", 94 * 2 * 2, 64, |wk, i| {
        let c = (33 + i % 94) as u8 as char;
        token(wk, &format!("'{}'", c), if i / 94 % 2 == 0 { 10 } else { 2 }, i / 188 == 1)
    }));
    scopes.push(Scope::new(if t { "every Unicode character in tokens like numbers" } else { "every character up to U+FFFF in tokens like numbers" }, if t { 0x110000 } else { 0x10000 } / 64, 16, |wk, i| {
        for c in (i as u32 * 64..i as u32 * 64 + 64).filter_map(char::from_u32).filter(|c| !" \t\r\n".contains(*c)) {
            for t in ["_", "0_", "_1", "1_0", "-_", "$_", "%1_", "'_'", "1._e", "1e_", "_e", "1_1e", "2_3", "1.5_2"] {
                token(wk, &t.replace('_', &c.to_string()), if t == "0_" { 16 } else { 10 }, false)?;
            }
        }
        Ok(())
    }));
    scopes.push(Scope::new("definitions spelled like numbers", 160, 16, shadow));
    Property {
        id: "C13",
        assumptions: vec!["digits beyond f are not part of any base".into()],
        scopes,
    }
}
