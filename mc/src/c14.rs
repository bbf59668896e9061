//! C14: floating-point literals: accepted exactly when well formed, with the value they spell.
use crate::c13::{float, token, Lit};
use crate::engine::*;
use crate::vmx::*;

const A: &[&str] = &["0", "1", "5", "9", ".", "e", "E", "+", "-", "x"];

fn mantissa(k: u64) -> String {
    const M: &[&str] = &[
        "0", "1", "2", "9", "10", "15", "123456789", "9007199254740991", "9007199254740993", "9223372036854775807",
        "9223372036854775808", "99999999999999999999", "0.", "1.", "0.5", "1.5", "3.14159265358979", "0.1", "0.001",
        "0.000000000000000001", "0.0000000000000000001", "9.999999999999999999", "1.9223372036854775807",
        "1.9223372036854775808", "123.456", "00012", "000.000", "1.50000", "179769313486231570",
    ];
    M[k as usize % M.len()].to_string()
}
const NM: u64 = 29;

/// Exponents of every size.
fn exponents(wk: &mut Wk, i: u64) -> CaseResult {
    let m = mantissa(i % NM);
    let i = i / NM;
    let sign = ["", "-", "+"][(i % 3) as usize];
    let i = i / 3;
    let e = ["e", "E"][(i % 2) as usize];
    let i = i / 2;
    let c = i % 2 == 1;
    let x = (i / 2) as i64 - 420;
    let t = format!("{}{}{}{}", sign, m, e, x);
    token(wk, &t, 10, c)
}

fn huge(wk: &mut Wk, i: u64) -> CaseResult {
    let m = mantissa(i % NM);
    let i = i / NM;
    let sg = ["", "-", "+"][(i % 3) as usize];
    let i = i / 3;
    const X: &[&str] = &[
        "600", "601", "1000", "2147483646", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297",
        "8589934592", "6442450944", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551616",
        "99999999999999999999999", "000000000000000000000000001", "00", "0000000010",
    ];
    let x = X[(i % X.len() as u64) as usize];
    let c = i / X.len() as u64 == 1;
    token(wk, &format!("{}e{}{}", m, sg, x), 10, c)
}

/// Every number of digits before and after the point.
fn counts(wk: &mut Wk, i: u64) -> CaseResult {
    let a = (i % 26) as usize;
    let i = i / 26;
    let b = (i % 27) as usize;
    let i = i / 27;
    let pat = (i % 6) as usize;
    let i = i / 6;
    let x = ["e", "e0", "e5", "e-5", "E22", "e-22", "e+007", ""][(i % 8) as usize];
    let sg = ["", "-"][(i / 8 % 2) as usize];
    let run = |n: usize, frac: bool| -> String {
        (0..n)
            .map(|k| match pat {
                0 => '1',
                1 => '9',
                2 if frac => if k + 1 == n { '7' } else { '0' },
                2 => if k == 0 { '3' } else { '0' },
                3 => '0',
                4 => (b'0' + (k % 10) as u8) as char,
                _ => (b'9' - (k % 10) as u8) as char,
            })
            .collect()
    };
    let t = format!("{}{}{}{}", sg, run(a, false), if b == 0 { String::new() } else { format!(".{}", run(b - 1, true)) }, x);
    if t.is_empty() {
        return Ok(());
    }
    token(wk, &t, 10, i / 16 == 1)
}

/// Exponents, integers and fractions written with many zeros.
fn zeros(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i % 320) as usize;
    let k = i / 320;
    let sg = ["", "+", "-"][(k % 3) as usize];
    let e = ["e", "E"][(k / 3 % 2) as usize];
    let z = "0".repeat(n);
    let t = match k / 6 % 4 {
        0 => format!("25{}{}{}7", e, sg, z),
        1 => format!("{}25.5{}{}2", z, e, sg),
        2 => format!("2.{}{}{}3", z, e, sg),
        _ => format!("-{}.{}{}{}{}", z, z, e, sg, z),
    };
    token(wk, &t, 10, k / 24 == 1)
}

/// One literal per base: floating-point literals are decimal in every base.
fn bases(wk: &mut Wk, i: u64) -> CaseResult {
    const T: &[&str] = &["1.5e0", "1.5E", "12.25e1", "-9.75e-2", "+8.e3", "1e", "1e5", "1E+5", "2e-1", "0.e", "1e-"];
    let t = T[(i % 11) as usize];
    let b = (i / 11 % 40) as isize - 2;
    token(wk, t, b, i / 11 / 40 == 1)
}

/// Several literals in one definition, at every alignment of the code.
fn many(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i % 12) as usize + 1;
    let pad = (i / 12 % 16) as usize;
    let kind = (i / 192) as usize;
    let mut vm = wk.take_vm();
    ready(&mut vm, 16384);
    let mut src = String::from(": w ");
    let (mut ws, mut wf) = (vec![], vec![]);
    for k in 0..n {
        let t = match (k + kind) % 3 {
            0 => format!("{}.{}e{}", k, 2 * k + 1, k % 4),
            1 => format!("-{}.5e", k),
            _ => {
                ws.push(k as isize);
                format!("{}", k)
            }
        };
        if let Lit::Float(v, _) = float(&t) {
            wf.push(v)
        }
        src.push_str(&t);
        src.push(' ');
    }
    src.push(';');
    eval(&mut vm, "marker m");
    // shift the code by a few bytes
    eval(&mut vm, &format!("{} allot", pad));
    eval(&mut vm, &src);
    eval(&mut vm, "w");
    let o = obs(&mut vm);
    let key = format!("{} after {} bytes", src, pad);
    wk.note(&key);
    wk.trans(n as u64);
    wk.trace();
    wk.state(H::new().u(i));
    let ok = o.err == 0
        && o.s == ws
        && o.f.len() == wf.len()
        && o.f.iter().zip(&wf).all(|(a, b)| crate::c13::close(f64::from_bits(*a), *b, false));
    if !ok {
        return fail(key, format!("error {}, {:?}, {:?}", o.err, o.s, o.f.iter().map(|x| f64::from_bits(*x)).collect::<Vec<_>>()));
    }
    reset(&mut vm);
    eval(&mut vm, "m");
    wk.put_vm(vm);
    Ok(())
}

pub fn property(t: bool) -> Property {
    let na = A.len() as u64;
    let mut scopes = vec![];
    let lmax = if t { 8 } else { 7 };
    for n in 1..=lmax {
        for c in [false, true] {
            if c && n >= lmax {
                continue;
            }
            scopes.push(Scope::new(
                &format!("all tokens of {} characters, {}", n, if c { "compiled" } else { "interpreted" }),
                na.pow(n as u32),
                if n >= 4 { 4096 } else { 64 },
                move |wk, i| {
                    let s: String = digits(i, na, n).iter().map(|k| A[*k]).collect();
                    token(wk, &s, 10, c)
                },
            ));
        }
    }
    scopes.push(Scope::new("29 significands x signs x exponents -420..420", NM * 3 * 2 * 2 * 841, 1024, exponents));
    scopes.push(Scope::new("29 significands x huge exponents", NM * 3 * 20 * 2, 64, huge));
    scopes.push(Scope::new("0..25 digits before and after the point, 6 patterns, 8 exponents", 26 * 27 * 6 * 8 * 2 * 2, 512, counts));
    scopes.push(Scope::new("0..319 zeros before or behind the point or in the exponent", 320 * 48, 128, zeros));
    scopes.push(Scope::new("literals in bases -2..37", 11 * 40 * 2, 64, bases));
    scopes.push(Scope::new("1..12 literals in one definition x alignments", 12 * 16 * 3, 32, many));
    Property {
        id: "C14",
        assumptions: vec![
            "a significand or fraction of more than 63 bits is not a literal".into(),
            "integers times 10^0..22 are exact; other values are accurate to 1e-13 relative".into(),
        ],
        scopes,
    }
}
