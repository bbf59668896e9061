//! C02: integer arithmetic, comparison, logic and shift words are total and exact.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;

enum R {
    V(Vec<isize>),
    Err(isize),
    /// Unspecified value(s): only the count and the cells below are checked.
    Any(usize),
}
use R::*;

fn tdiv(n: isize, d: isize) -> isize {
    (n as i128 / d as i128) as isize
}
fn tmod(n: isize, d: isize) -> isize {
    (n as i128 % d as i128) as isize
}
fn w(v: i128) -> Vec<isize> {
    vec![v as u64 as i64 as isize]
}

const UN: &[&str] = &[
    "1+", "1-", "abs", "negate", "invert", "2*", "2/", "0=", "0<", "0>", "0<>", "not", "cell+",
    "cells", "char+", "chars", "float+", "floats", "aligned", "faligned",
];
const BIN: &[&str] = &[
    "+", "-", "*", "/", "mod", "/mod", "and", "or", "xor", "lshift", "rshift", "=", "<>", "<", ">",
    "<=", ">=", "max", "min", "bounds",
];
const TERN: &[&str] = &["within", "/string"];

fn model(word: &str, a: &[isize]) -> R {
    let x = |i: usize| a[i] as i128;
    match (word, a.len()) {
        ("1+", 1) => V(w(x(0) + 1)),
        ("1-", 1) => V(w(x(0) - 1)),
        ("abs", 1) => V(w(x(0).abs())),
        ("negate", 1) => V(w(-x(0))),
        ("invert", 1) => V(w(-x(0) - 1)),
        ("2*", 1) => V(w(x(0) * 2)),
        ("2/", 1) => V(w(x(0) / 2)),
        ("0=", 1) | ("not", 1) => V(vec![fl(a[0] == 0)]),
        ("0<", 1) => V(vec![fl(a[0] < 0)]),
        ("0>", 1) => V(vec![fl(a[0] > 0)]),
        ("0<>", 1) => V(vec![fl(a[0] != 0)]),
        ("cell+", 1) | ("float+", 1) => V(w(x(0) + 8)),
        ("cells", 1) | ("floats", 1) => V(w(x(0) * 8)),
        ("char+", 1) => V(w(x(0) + 1)),
        ("chars", 1) => V(vec![a[0]]),
        ("aligned", 1) | ("faligned", 1) => {
            let u = a[0] as u64 as u128;
            V(vec![((u + 7) / 8 * 8) as u64 as i64 as isize])
        }
        ("+", 2) => V(w(x(0) + x(1))),
        ("-", 2) => V(w(x(0) - x(1))),
        ("*", 2) => V(w(x(0).wrapping_mul(x(1)))),
        ("/", 2) => {
            if a[1] == 0 {
                Err(-10)
            } else {
                V(vec![tdiv(a[0], a[1])])
            }
        }
        ("mod", 2) => {
            if a[1] == 0 {
                Err(-10)
            } else {
                V(vec![tmod(a[0], a[1])])
            }
        }
        ("/mod", 2) => {
            if a[1] == 0 {
                Err(-10)
            } else {
                V(vec![tmod(a[0], a[1]), tdiv(a[0], a[1])])
            }
        }
        ("and", 2) => V(vec![a[0] & a[1]]),
        ("or", 2) => V(vec![a[0] | a[1]]),
        ("xor", 2) => V(vec![(a[0] | a[1]) & !(a[0] & a[1])]),
        ("lshift", 2) => {
            if a[1] < 0 || a[1] > 63 {
                Any(1)
            } else {
                V(vec![((a[0] as u64 as u128) << a[1]) as u64 as i64 as isize])
            }
        }
        ("rshift", 2) => {
            if a[1] < 0 || a[1] > 63 {
                Any(1)
            } else {
                V(vec![((a[0] as u64 as u128) >> a[1]) as u64 as i64 as isize])
            }
        }
        ("=", 2) => V(vec![fl(a[0] == a[1])]),
        ("<>", 2) => V(vec![fl(a[0] != a[1])]),
        ("<", 2) => V(vec![fl(a[0] < a[1])]),
        (">", 2) => V(vec![fl(a[0] > a[1])]),
        ("<=", 2) => V(vec![fl(a[0] <= a[1])]),
        (">=", 2) => V(vec![fl(a[0] >= a[1])]),
        ("max", 2) => V(vec![if a[0] > a[1] { a[0] } else { a[1] }]),
        ("min", 2) => V(vec![if a[0] < a[1] { a[0] } else { a[1] }]),
        ("bounds", 2) => V(vec![w(x(0) + x(1))[0], a[0]]),
        ("within", 3) => V(vec![fl(a[1] <= a[0] && a[0] < a[2])]),
        ("/string", 3) => V(vec![w(x(0) + x(2))[0], w(x(1) - x(2))[0]]),
        _ => panic!("model"),
    }
}

pub fn alphabet() -> Vec<isize> {
    let mut v: Vec<isize> = vec![];
    for x in [
        isize::MIN,
        isize::MIN + 1,
        isize::MIN + 2,
        isize::MIN / 2,
        -(1 << 32) - 1,
        -(1 << 32),
        -(1 << 31) - 1,
        -(1 << 31),
        -65536,
        -1000,
        -257,
        -256,
        -255,
        -129,
        -128,
        -65,
        -64,
        -63,
        -10,
        -9,
        -8,
        -7,
        -3,
        -2,
        -1,
        0,
        1,
        2,
        3,
        7,
        8,
        9,
        10,
        31,
        32,
        33,
        62,
        63,
        64,
        65,
        127,
        128,
        255,
        256,
        257,
        1000,
        0x12345678,
        (1 << 31) - 1,
        1 << 31,
        (1 << 32) - 1,
        1 << 32,
        (1 << 32) + 1,
        0x5555555555555555,
        0x0123456789abcdef,
        isize::MAX / 2,
        isize::MAX / 8,
        isize::MAX / 8 + 1,
        isize::MAX - 8,
        isize::MAX - 7,
        isize::MAX - 2,
        isize::MAX - 1,
        isize::MAX,
    ] {
        v.push(x);
    }
    v.push(0xAAAAAAAAAAAAAAAAu64 as isize);
    v
}

fn case(wk: &mut Wk, word: &str, args: &[isize], compiled: bool) -> CaseResult {
    let mut vm = wk.take_vm();
    if compiled && vm.find(&format!("t:{}", word)).is_none() {
        reset(&mut vm);
        eval(&mut vm, &format!(": t:{} {} ;", word, word));
    }
    wk.note(&format!(
        "{:?} {}{}",
        args,
        word,
        if compiled { " (inside a definition)" } else { "" }
    ));
    reset(&mut vm);
    let below = [isize::MIN + 77, 0x7b7b7b7b7b7b];
    for x in below.iter().chain(args) {
        vm.s_stack().push(*x);
    }
    if compiled {
        eval(&mut vm, &format!("t:{}", word));
    } else {
        eval(&mut vm, word);
    }
    let o = obs(&mut vm);
    wk.put_vm(vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().sl(&o.s).i(o.err).s(word));
    let key = || format!("{:?} {}", args, word);
    match model(word, args) {
        V(r) => {
            let mut e = below.to_vec();
            e.extend(&r);
            if o.err != 0 || o.s != e || o.r != 0 {
                return fail(key(), format!("expected {:?}, got {:?} error {}", e, o.s, o.err));
            }
        }
        Err(c) => {
            if o.err != c || !o.s.is_empty() {
                return fail(
                    key(),
                    format!("expected error {} and cleared stacks, got error {} stack {:?}", c, o.err, o.s),
                );
            }
        }
        Any(n) => {
            if o.err != 0 || o.s.len() != 2 + n || o.s[..2] != below {
                return fail(key(), format!("stack {:?} error {}", o.s, o.err));
            }
        }
    }
    Ok(())
}

pub fn property(t: bool) -> Property {
    let a = alphabet();
    let n = a.len() as u64;
    let (a1, a2, a3) = (a.clone(), a.clone(), a.clone());
    let nb = BIN.len() as u64;
    let nu = UN.len() as u64;
    let nt = TERN.len() as u64;
    let lim: i64 = if t { 600 } else { 150 };
    let side = (2 * lim + 1) as u64;
    Property {
        id: "C02",
        assumptions: vec![
            "operands range over boundary values and a dense block around zero, not over all 2^64 cells".into(),
            "shift counts outside 0..63 are an ambiguous condition: only totality and the cells below are checked".into(),
        ],
        scopes: vec![
            Scope::new("unary words x boundary values, interpreted and compiled", nu * n * 2, 512, move |wk, i| {
                case(wk, UN[(i / 2 / n) as usize], &[a1[((i / 2) % n) as usize]], i % 2 == 1)
            }),
            Scope::new("binary words x pairs of boundary values, interpreted and compiled", nb * n * n * 2, 2048, move |wk, i| {
                let j = i / 2;
                case(
                    wk,
                    BIN[(j / n / n) as usize],
                    &[a2[((j / n) % n) as usize], a2[(j % n) as usize]],
                    i % 2 == 1,
                )
            }),
            Scope::new("ternary words x triples of boundary values", nt * n * n * n, 4096, move |wk, i| {
                case(
                    wk,
                    TERN[(i / n / n / n) as usize],
                    &[a3[((i / n / n) % n) as usize], a3[((i / n) % n) as usize], a3[(i % n) as usize]],
                    false,
                )
            }),
            Scope::new("unary words x dense range around zero", nu * side, 4096, move |wk, i| {
                case(wk, UN[(i / side) as usize], &[((i % side) as i64 - lim) as isize], false)
            }),
            Scope::new("binary words x dense square around zero", nb * side * side, 8192, move |wk, i| {
                case(
                    wk,
                    BIN[(i / side / side) as usize],
                    &[
                        (((i / side) % side) as i64 - lim) as isize,
                        ((i % side) as i64 - lim) as isize,
                    ],
                    false,
                )
            }),
            Scope::new("powers of two and neighbours, all pairs", nb * 192 * 192, 8192, move |wk, i| {
                let v = |k: u64| -> isize {
                    let p = 1u64 << (k / 3);
                    (match k % 3 {
                        0 => p.wrapping_sub(1),
                        1 => p,
                        _ => p.wrapping_neg(),
                    }) as isize
                };
                case(
                    wk,
                    BIN[(i / 192 / 192) as usize],
                    &[v((i / 192) % 192), v(i % 192)],
                    false,
                )
            }),
            Scope::new("constants true false max-n max-u bl", 5, 1, move |wk, i| {
                let (src, v) = [
                    ("true", -1isize),
                    ("false", 0),
                    ("max-n", isize::MAX),
                    ("max-u", -1),
                    ("bl", 32),
                ][i as usize];
                let vm = wk.vm();
                reset(vm);
                eval(vm, src);
                let o = obs(vm);
                if o.s != [v] || o.err != 0 {
                    return fail(src, format!("{:?}", o));
                }
                Ok(())
            }),
        ],
    }
}
