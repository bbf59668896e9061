//! C23: floating-point words: IEEE arithmetic, exact comparisons and conversions, stack words
//! that move cells and change nothing else.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;
use std::collections::BTreeMap;
use std::f64::consts::PI;

/// How close a result has to be.
#[derive(Clone, Copy, PartialEq)]
enum Tol {
    Exact,
    /// a few units in the last place: functions of the platform's mathematics library
    Near,
    /// exact up to the sign of a zero
    Zero,
}

fn same(a: f64, b: f64, t: Tol) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.to_bits() == b.to_bits() {
        return true;
    }
    match t {
        Tol::Exact => false,
        Tol::Zero => a == b,
        Tol::Near => a == b || a.is_finite() && b.is_finite() && ((a - b).abs() <= 1e-13 * a.abs().max(b.abs()) || (a - b).abs() < 1e-305),
    }
}

fn unary(w: &str, x: f64) -> Option<(f64, Tol)> {
    use Tol::*;
    if x.is_finite() && x.abs() > 1e300 && UNARY[12..].contains(&w) {
        // intermediate results may overflow
        return None;
    }
    Some(match w {
        "fabs" => (x.abs(), Exact),
        "fnegate" => (-x, Exact),
        "floor" => (x.floor(), Exact),
        "fceil" => (x.ceil(), Exact),
        // halves go away from zero
        "fround" => (
            {
                let t = x.trunc();
                if (x - t).abs() >= 0.5 {
                    t + 1f64.copysign(x)
                } else {
                    t
                }
            },
            Zero,
        ),
        "fsqrt" => (x.sqrt(), Exact),
        "fsin" => (x.sin(), Near),
        "fcos" => (x.cos(), Near),
        "ftan" => (x.tan(), Near),
        "fasin" => (x.asin(), Near),
        "facos" => (x.acos(), Near),
        "fatan" => (x.atan(), Near),
        "meter" | "rad" | "sec" | "hz" | "1/sec" => (x, Exact),
        "mm" | "msec" | "mm/sec" | "um/msec" => (x / 1000.0, Near),
        "um" | "usec" => (x / 1000000.0, Near),
        "deg" => (x / 180.0 * PI, Near),
        "hr" => (x * 3600.0, Near),
        "minute" => (x * 60.0, Near),
        "mm/min" => (x / 60000.0, Near),
        "rpm" => (x / 60.0 * 2.0 * PI, Near),
        _ => return None,
    })
}

const UNARY: [&str; 28] = [
    "fabs", "fnegate", "floor", "fceil", "fround", "fsqrt", "fsin", "fcos", "ftan", "fasin", "facos", "fatan", "meter", "rad", "sec", "hz", "1/sec",
    "mm", "msec", "mm/sec", "um/msec", "um", "usec", "deg", "hr", "minute", "mm/min", "rpm",
];

const BINARY: [&str; 8] = ["f+", "f-", "f*", "f/", "f**", "fmin", "fmax", "fatan2"];

fn binary(w: &str, a: f64, b: f64) -> (f64, Tol) {
    use Tol::*;
    match w {
        "f+" => (a + b, Exact),
        "f-" => (a - b, Exact),
        "f*" => (a * b, Exact),
        "f/" => (a / b, Exact),
        "f**" => (a.powf(b), Near),
        "fmin" => (if a < b || b.is_nan() { a } else { b }, Zero),
        "fmax" => (if a > b || b.is_nan() { a } else { b }, Zero),
        _ => (a.atan2(b), Near),
    }
}

fn near(a: f64, b: f64, c: f64) -> bool {
    let d = (a - b).abs();
    if c > 0.0 {
        d < c
    } else if c == 0.0 {
        a == b
    } else {
        d < (c * (a.abs() + b.abs())).abs()
    }
}

fn to_int(x: f64) -> Option<isize> {
    // only what fits is specified
    if x.abs() < 9223372036854775808.0 {
        Some(x.trunc() as isize)
    } else {
        None
    }
}

/// Apply a word to data stack `s` and float stack `f`; None: operands missing or unspecified.
fn apply(w: &str, s: &mut Vec<isize>, f: &mut Vec<f64>) -> Option<Tol> {
    let n = f.len();
    let need = |k: usize| if n >= k { Some(()) } else { None };
    let mut tol = Tol::Exact;
    match w {
        "fdup" => {
            need(1)?;
            f.push(f[n - 1])
        }
        "fdrop" => {
            f.pop()?;
        }
        "fswap" => {
            need(2)?;
            f.swap(n - 1, n - 2)
        }
        "fover" => {
            need(2)?;
            f.push(f[n - 2])
        }
        "fnip" => {
            need(2)?;
            f.remove(n - 2);
        }
        "frot" => {
            need(3)?;
            let x = f.remove(n - 3);
            f.push(x)
        }
        "pi" => f.push(PI),
        "f<" | "f>" => {
            need(2)?;
            let b = f.pop()?;
            let a = f.pop()?;
            s.push(fl(if w == "f<" { a < b } else { a > b }))
        }
        "f0<" => {
            let a = f.pop()?;
            s.push(fl(a < 0.0))
        }
        "f0=" => {
            let a = f.pop()?;
            s.push(fl(a == 0.0))
        }
        "f~" => {
            need(3)?;
            let c = f.pop()?;
            let b = f.pop()?;
            let a = f.pop()?;
            s.push(fl(near(a, b, c)))
        }
        "fsincos" => {
            let a = f.pop()?;
            f.push(a.sin());
            f.push(a.cos());
            tol = Tol::Near
        }
        "f>s" => {
            let a = f.pop()?;
            s.push(to_int(a)?)
        }
        "s>f" => {
            let a = s.pop()?;
            f.push(a as f64)
        }
        "fpick" => {
            let k = s.pop()?;
            if k < 0 || k as usize >= n {
                return None;
            }
            f.push(f[n - 1 - k as usize])
        }
        w => {
            if let Some(x) = f.last().and_then(|x| unary(w, *x)) {
                *f.last_mut()? = x.0;
                tol = x.1
            } else if BINARY.contains(&w) {
                need(2)?;
                let b = f.pop()?;
                let a = f.pop()?;
                let x = binary(w, a, b);
                f.push(x.0);
                tol = x.1
            } else {
                s.push(w.parse().ok()?)
            }
        }
    }
    Some(tol)
}

fn values() -> Vec<f64> {
    let mut v = vec![
        0.0, 1.0, 0.5, 1.5, 2.5, 3.5, 0.1, 0.25, 0.49999999999999994, 0.9999999999999999, 1.0000000000000002, 2.0, 3.0, 4.0, 7.0, 9.0, 10.0, 100.0, 1000.0,
        PI, PI / 2.0, PI / 4.0, PI / 6.0, 1e-5, 1e-300, 1e300, f64::MIN_POSITIVE, f64::MIN_POSITIVE / 2.0, 5e-324, f64::MAX, f64::INFINITY, 4503599627370495.5,
        4503599627370496.0, 4503599627370497.0, 9007199254740991.0, 9007199254740992.0, 2147483647.0, 2147483648.0, 4294967295.5, 9.223372036854775e18,
        9.223372036854776e18, 1e19, 180.0, 45.0, 360.0, 3600.0, 60.0, 0.001, 0.000001, 1.0 / 3.0, 2.0 / 3.0, 12345.6789, 1e22, 1e-22,
    ];
    let w: Vec<f64> = v.iter().map(|x| -x).collect();
    v.extend(w);
    v.push(f64::NAN);
    v
}

fn many() -> Vec<f64> {
    let mut v = values();
    for e in -1074..1024 {
        let p = 2f64.powi(e);
        if e % 16 == 0 || (e >= -8 && e <= 66) {
            for x in &[p, p * 1.5, f64::from_bits(p.to_bits() + 1), f64::from_bits(p.to_bits().max(2) - 1)] {
                v.push(*x);
                v.push(-x);
            }
        }
    }
    for k in -400..400 {
        v.push(k as f64 * 0.25);
        v.push(k as f64 * 0.1);
    }
    v
}

/// Words looked up once per VM; underneath, floats and cells that must not change.
struct Bench {
    vm: VM,
    xt: BTreeMap<String, usize>,
}

fn bench(wk: &mut Wk) -> Bench {
    let mut b = match wk.store.remove(&0) {
        Some(b) => *b.downcast::<Bench>().unwrap(),
        None => Bench { vm: new_vm(), xt: BTreeMap::new() },
    };
    ready(&mut b.vm, 4096);
    b
}

impl Bench {
    fn call(&mut self, w: &str) {
        let xt = match self.xt.get(w) {
            Some(x) => *x,
            None => {
                let x = self.vm.find(w).unwrap_or_else(|| panic!("no word {}", w));
                self.xt.insert(w.to_string(), x);
                x
            }
        };
        self.vm.execute_word(xt);
        self.vm.run();
    }
}

fn compare(o: &Obs, s: &[isize], f: &[f64], tol: &[Tol]) -> bool {
    o.err == 0
        && o.s == s
        && o.f.len() == f.len()
        && o.f.iter().zip(f).enumerate().all(|(i, (a, b))| same(f64::from_bits(*a), *b, *tol.get(i).unwrap_or(&Tol::Exact)))
}

fn show(o: &Obs) -> String {
    format!("data {:?} floats {:?} error {}", o.s, o.f.iter().map(|x| f64::from_bits(*x)).collect::<Vec<_>>(), o.err)
}

/// One word on given operands, with other values underneath.
fn single(wk: &mut Wk, w: &str, s: &[isize], f: &[f64]) -> CaseResult {
    let under = [3.25, -0.0, 1e9];
    let cells = [11isize, -7];
    let mut ms = cells.to_vec();
    ms.extend(s);
    let mut mf = under.to_vec();
    mf.extend(f);
    let (ms0, mf0) = (ms.clone(), mf.clone());
    let tol = match apply(w, &mut ms, &mut mf) {
        Some(t) => t,
        None => return Ok(()),
    };
    let mut b = bench(wk);
    for x in &ms0 {
        b.vm.s_stack().push(*x);
    }
    for x in &mf0 {
        b.vm.f_stack().push(*x);
    }
    b.call(w);
    b.vm.check_stacks();
    let o = obs(&mut b.vm);
    wk.trans(1);
    wk.state(o.h());
    let t: Vec<Tol> = (0..mf.len()).map(|i| if i < 3 { Tol::Exact } else { tol }).collect();
    if !compare(&o, &ms, &mf, &t) || o.out != "" {
        return fail(format!("{:?} {:?} {}", s, f, w), format!("got {}, expected data {:?} floats {:?}", show(&o), ms, mf));
    }
    wk.trace();
    wk.store.insert(0, Box::new(b));
    Ok(())
}

const SEQ: &[&str] = &[
    "fdup", "fdrop", "fswap", "fover", "fnip", "frot", "pi", "f+", "f-", "f*", "f/", "fmin", "fmax", "fnegate", "fabs", "floor", "fround", "f<", "f0<", "f~",
    "s>f", "f>s", "0 fpick", "1 fpick", "2 fpick", "f0=", "f>", "fsqrt",
];

/// Sequences of words on small stacks, interpreted and compiled.
fn seq(wk: &mut Wk, i: u64, n: usize) -> CaseResult {
    let starts: [&[f64]; 5] = [&[1.5, -2.25, 3.0, 0.5], &[0.0, -1.0], &[2.5, 2.5, -0.5], &[1e300, 4.0, 0.125, -3.0, 7.0], &[]];
    let ns = SEQ.len() as u64;
    let st = starts[(i % 5) as usize];
    let ws: Vec<&str> = digits(i / 5, ns, n).into_iter().map(|d| SEQ[d]).collect();
    let mut s = vec![5isize];
    let mut f = st.to_vec();
    for w in &ws {
        for x in w.split(' ') {
            if apply(x, &mut s, &mut f).is_none() {
                return Ok(());
            }
        }
    }
    let text = ws.join(" ");
    let mut b = bench(wk);
    for compiled in &[false, true] {
        reset(&mut b.vm);
        b.vm.s_stack().push(5);
        for x in st {
            b.vm.f_stack().push(*x);
        }
        if *compiled {
            eval(&mut b.vm, &format!("marker undo : t {} ;", text));
            if b.vm.s_stack().as_slice() != [5] || b.vm.f_stack().as_slice().len() != st.len() {
                return fail(text, "compiling changes the stacks");
            }
            eval(&mut b.vm, "t");
        } else {
            eval(&mut b.vm, &text);
        }
        let o = obs(&mut b.vm);
        wk.trans(n as u64);
        wk.state(o.h());
        if !compare(&o, &s, &f, &vec![Tol::Near; f.len()]) {
            return fail(
                format!("{:?} {} ({})", st, text, if *compiled { "compiled" } else { "interpreted" }),
                format!("got {}, expected data {:?} floats {:?}", show(&o), s, f),
            );
        }
        if *compiled {
            reset(&mut b.vm);
            eval(&mut b.vm, "undo");
        }
    }
    wk.trace();
    wk.store.insert(0, Box::new(b));
    Ok(())
}

/// Each stack word at every depth of the float stack.
fn depth(wk: &mut Wk, i: u64) -> CaseResult {
    let ws = ["fdup", "fdrop", "fswap", "fover", "fnip", "frot", "fpick", "f+", "f-", "f~", "f<", "fsincos", "pi", "s>f", "f>s", "f**", "fatan2"];
    let d = (i % 65) as usize;
    let w = ws[(i / 65 % 17) as usize];
    let k = (i / 65 / 17) as isize;
    if w != "fpick" && k > 0 {
        return Ok(());
    }
    let mut f: Vec<f64> = (0..d).map(|x| x as f64 + 0.5).collect();
    let mut s = vec![k];
    let (f0, s0) = (f.clone(), s.clone());
    let tol = match apply(w, &mut s, &mut f) {
        Some(t) if f.len() <= 64 => t,
        _ => return Ok(()),
    };
    let mut b = bench(wk);
    for x in &s0 {
        b.vm.s_stack().push(*x);
    }
    for x in &f0 {
        b.vm.f_stack().push(*x);
    }
    b.call(w);
    b.vm.check_stacks();
    let o = obs(&mut b.vm);
    wk.trans(1);
    wk.state(o.h());
    if !compare(&o, &s, &f, &vec![tol; f.len()]) {
        return fail(format!("{} {} at depth {}", k, w, d), format!("got {}, expected data {:?} floats {:?}", show(&o), s, f));
    }
    wk.trace();
    wk.store.insert(0, Box::new(b));
    Ok(())
}

/// Arrays of floats in the data space: every sequence of stores and fetches.
fn arrays(wk: &mut Wk, i: u64, n: usize) -> CaseResult {
    let ops = ["1.5e a f!", "-2e250 a float+ f!", "0e a 2 floats + f!", "a f@", "a float+ f@", "a 2 floats + f@ ", "7e b faligned f!", "b faligned f@", "v f@", "3e-9 v f!", "c", "1e 3e f/ f, "];
    let off = (i % 16) as usize;
    let ds = digits(i / 16, 12, n);
    let mut b = bench(wk);
    let key = format!("{} bytes first: {}", off, ds.iter().map(|d| ops[*d]).collect::<Vec<_>>().join(" "));
    wk.note(&key);
    eval(
        &mut b.vm,
        &format!(
            "marker undo {} allot falign here 3 floats allot constant a 6e a f! 6.5e a float+ f! 7.5e a 2 floats + f! \
             create b 1 allot 2 floats allot 8.5e b faligned f! fvariable v 9.25e fconstant c",
            off
        ),
    );
    if err(&b.vm) != 0 {
        return fail(key, format!("error {} in the definitions", err(&b.vm)));
    }
    let mut m = [6.0, 6.5, 7.5, 8.5, 0.0];
    let mut f: Vec<f64> = vec![];
    let mut text = String::new();
    for d in &ds {
        match d {
            0 => m[0] = 1.5,
            1 => m[1] = -2e250,
            2 => m[2] = 0.0,
            3 | 4 | 5 => f.push(m[d - 3]),
            6 => m[3] = 7.0,
            7 => f.push(m[3]),
            8 => f.push(m[4]),
            9 => m[4] = 3e-9,
            10 => f.push(9.25),
            _ => text += "falign ",
        }
        text += ops[*d];
        text += " ";
    }
    if ds.contains(&11) {
        text += "here 1 floats - f@ ";
        f.push(1.0 / 3.0);
    }
    eval(&mut b.vm, &text);
    let o = obs(&mut b.vm);
    wk.trans(n as u64 + 1);
    wk.state(o.h());
    if !compare(&o, &[], &f, &vec![Tol::Near; f.len()]) {
        return fail(key, format!("got {}, expected floats {:?}", show(&o), f));
    }
    reset(&mut b.vm);
    eval(&mut b.vm, "undo");
    wk.trace();
    wk.store.insert(0, Box::new(b));
    Ok(())
}

/// Alignment words at every address, sizes of every number of floats.
fn align(wk: &mut Wk, i: u64) -> CaseResult {
    let mut b = bench(wk);
    let a = b.vm.data_space().start() as isize + i as isize % 64;
    let n = i as isize - 300;
    let up = (a + 7) / 8 * 8;
    let key = format!("address start+{} count {}", i % 64, n);
    for (w, x, y) in &[("faligned", a, up), ("float+", a, a + 8), ("floats", n, n * 8), ("aligned", a, up)] {
        reset(&mut b.vm);
        b.vm.s_stack().push(*x);
        b.call(w);
        let o = obs(&mut b.vm);
        wk.trans(1);
        if !compare(&o, &[*y], &[], &[]) {
            return fail(format!("{} {}", key, w), format!("got {}, expected {}", show(&o), y));
        }
    }
    reset(&mut b.vm);
    eval(&mut b.vm, &format!("marker undo {} allot here falign here", i % 64));
    let o = obs(&mut b.vm);
    if o.s.len() != 2 || o.s[1] != (o.s[0] + 7) / 8 * 8 {
        return fail(key, format!("falign: here before and after {:?}", o.s));
    }
    reset(&mut b.vm);
    eval(&mut b.vm, "undo");
    wk.state(H::new().u(i));
    wk.trace();
    wk.store.insert(0, Box::new(b));
    Ok(())
}

fn integers() -> Vec<isize> {
    let mut v = vec![];
    for k in 0..63 {
        for d in -2..=2isize {
            v.push((1isize << k).wrapping_add(d));
            v.push((-(1isize << k)).wrapping_add(d));
        }
    }
    v.extend(&[isize::MAX, isize::MAX - 1, isize::MIN, isize::MIN + 1, isize::MAX - 511, isize::MAX - 512, isize::MAX - 1024]);
    v.extend(-100..100);
    v
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![];
    let m = many().len() as u64;
    scopes.push(Scope::new("one operand", m * UNARY.len() as u64, 512, move |wk, i| {
        let v = wk.store.entry(1).or_insert_with(|| Box::new(many())).downcast_ref::<Vec<f64>>().unwrap()[(i % m) as usize];
        single(wk, UNARY[(i / m) as usize], &[], &[v])
    }));
    let flags = ["f0<", "f0=", "f>s", "fsincos"];
    scopes.push(Scope::new("flags and conversions of one operand", m * 4, 512, move |wk, i| {
        let v = wk.store.entry(1).or_insert_with(|| Box::new(many())).downcast_ref::<Vec<f64>>().unwrap()[(i % m) as usize];
        single(wk, flags[(i / m) as usize], &[], &[v])
    }));
    let ni = integers().len() as u64;
    scopes.push(Scope::new("s>f of every boundary integer", ni, 64, move |wk, i| single(wk, "s>f", &[integers()[i as usize]], &[])));
    let vals = values();
    let n = vals.len() as u64;
    let v2 = vals.clone();
    scopes.push(Scope::new("two operands", n * n * 10, 512, move |wk, i| {
        let (a, b) = (v2[(i % n) as usize], v2[(i / n % n) as usize]);
        let k = (i / n / n) as usize;
        single(wk, if k < 8 { BINARY[k] } else { ["f<", "f>"][k - 8] }, &[], &[a, b])
    }));
    let few: Vec<f64> = vals.iter().cloned().filter(|x| ![7.0, 9.0, 100.0, 1000.0, 180.0, 45.0, 360.0, 60.0, 3600.0].contains(&x.abs())).collect();
    let k = few.len() as u64;
    scopes.push(Scope::new("three operands", k * k * k, 1024, move |wk, i| {
        single(wk, "f~", &[], &[few[(i % k) as usize], few[(i / k % k) as usize], few[(i / k / k) as usize]])
    }));
    if t {
        scopes.push(Scope::new("two operands, many values", m * m * 10, 8192, move |wk, i| {
            let v = wk.store.entry(1).or_insert_with(|| Box::new(many())).downcast_ref::<Vec<f64>>().unwrap();
            let (a, b) = (v[(i % m) as usize], v[(i / m % m) as usize]);
            let k = (i / m / m) as usize;
            single(wk, if k < 8 { BINARY[k] } else { ["f<", "f>"][k - 8] }, &[], &[a, b])
        }));
    }
    scopes.push(Scope::new("every depth", 65 * 17 * 65, 512, depth));
    scopes.push(Scope::new("alignment and sizes", 700, 32, align));
    for n in 1..=4 + t as usize {
        scopes.push(Scope::new(&format!("sequences of {} words", n), 5 * (SEQ.len() as u64).pow(n as u32), 2048, move |wk, i| seq(wk, i, n)));
    }
    for n in 1..=4 + t as usize {
        scopes.push(Scope::new(&format!("sequences of {} stores and fetches", n), 16 * 12u64.pow(n as u32), 256, move |wk, i| arrays(wk, i, n)));
    }
    Property {
        id: "C23",
        assumptions: vec![
            "transcendental functions and units may differ from the reference by a relative 1e-13".into(),
            "f>s of a number outside the integer range, the sign of a zero from fmin, fmax and fround, and the payload of NaN are not specified".into(),
        ],
        scopes,
    }
}
