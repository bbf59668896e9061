//! C08: numbered labels, goto and call.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;
use std::collections::BTreeMap;

/// Items of a program over the labels p and q.
const ITEMS: usize = 9;
#[derive(Clone, Copy, Debug, PartialEq)]
enum I {
    Label(usize),
    Goto(usize),
    Call(usize),
    CondGoto(usize),
    Emit,
    Exit,
    /// end of a definition, start of the next
    Cut,
}

fn item(k: usize, pos: usize) -> (I, String) {
    let l = k % 2;
    let n = ["7", "8"][l];
    let c = (b'a' + pos as u8) as char;
    match k {
        0 | 1 => (I::Label(l), format!("[ {} ] label", n)),
        2 | 3 => (I::Goto(l), format!("t [ {} ] goto", n)),
        4 | 5 => (I::Call(l), format!("t [ {} ] call", n)),
        6 => (I::Emit, format!("[char] {} emit", c)),
        7 => (I::CondGoto(1), "b if [ 8 ] goto then".into()),
        8 => (I::Exit, "exit".into()),
        9 => (I::Cut, "; : v".into()),
        _ => panic!(),
    }
}

const PRELUDE: &str = "variable bits variable left \
: b left @ if -1 left +! bits @ dup 2/ bits ! 1 and 6 * else abort then ; \
: t left @ if -1 left +! bits @ 2/ bits ! else abort then ;";

struct Cx {
    bits: usize,
    left: usize,
}

fn machine(wk: &mut Wk) -> Result<VM, Fail> {
    let mut vm = wk.take_vm();
    if !wk.store.contains_key(&0) || room(&mut vm) < 8192 {
        vm = new_vm();
        reset(&mut vm);
        eval(&mut vm, PRELUDE);
        if err(&vm) != 0 {
            return fail("prelude", format!("error {}", err(&vm)));
        }
        eval(&mut vm, "bits left");
        let l = vm.s_stack().pop() as usize;
        let b = vm.s_stack().pop() as usize;
        wk.store.insert(0, Box::new(Cx { bits: b, left: l }));
    }
    reset(&mut vm);
    Ok(vm)
}

fn emits(pos: usize) -> char {
    (b'a' + pos as u8) as char
}

enum Static {
    Ok,
    Duplicate,
    Unresolved,
}

fn program(wk: &mut Wk, n: usize, kinds: usize, fuel: usize, i: u64) -> CaseResult {
    let ks = digits(i, kinds as u64, n);
    let mut prog: Vec<(I, String)> = ks.iter().enumerate().map(|(p, k)| item(*k, p)).collect();
    if kinds == 10 && prog.iter().filter(|x| x.0 == I::Cut).count() != 1 {
        return Ok(());
    }
    prog.push((I::Exit, ";".into()));
    let text = format!("0labels : w {}", prog.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(" "));
    // static check and label positions
    let mut at: BTreeMap<usize, usize> = BTreeMap::new();
    let mut pend: Vec<usize> = vec![];
    let mut st = Static::Ok;
    // a label of the first definition referenced with no label yet is pending at its end
    for (p, (x, _)) in prog.iter().enumerate() {
        match x {
            I::Label(l) => {
                if at.contains_key(l) {
                    st = Static::Duplicate;
                    break;
                }
                at.insert(*l, p);
                pend.retain(|y| y != l);
            }
            I::Goto(l) | I::Call(l) | I::CondGoto(l) => {
                if !at.contains_key(l) {
                    pend.push(*l);
                }
            }
            I::Cut => {
                if !pend.is_empty() {
                    st = Static::Unresolved;
                    break;
                }
            }
            _ => {}
        }
    }
    if let Static::Ok = st {
        if !pend.is_empty() {
            st = Static::Unresolved;
        }
    }
    let mut vm = machine(wk)?;
    wk.note(&text);
    let before = (vm.find("w"), vm.find("v"));
    eval(&mut vm, &text);
    let o = obs(&mut vm);
    wk.trans(n as u64 + 3);
    wk.trace();
    wk.state(H::new().u(kinds as u64).u(n as u64).u(i));
    match st {
        Static::Duplicate | Static::Unresolved => {
            let (e, m) = match st {
                Static::Duplicate => (-24, "a label placed twice"),
                _ => (-22, "a label that is never placed"),
            };
            if o.err != e {
                return fail(text, format!("{} must be error {}, got {}", m, e, o.err));
            }
            // the failed definition is invisible and the machine usable
            let first_ok = kinds == 10 && text.contains("; : v")
                && vm.find("w") != before.0;
            if !first_ok && vm.find("w") != before.0 || vm.find("v") != before.1 {
                return fail(text, "a rejected definition is visible");
            }
            recover(&mut vm);
            clear_out(&mut vm);
            eval(&mut vm, "0labels : q [ 7 ] goto 1 . [ 7 ] label 2 . ; q");
            let o = obs(&mut vm);
            if o.err != 0 || !o.out.ends_with("2 ") || o.out.ends_with("1 2 ") {
                return fail(text, format!("after the rejection the machine is not usable: {:?}", o));
            }
            wk.put_vm(vm);
            return Ok(());
        }
        Static::Ok => {}
    }
    if o.err != 0 || o.compiling {
        return fail(text, format!("rejected with error {}", o.err));
    }
    let (ba, la) = {
        let c = wk.store[&0].downcast_ref::<Cx>().unwrap();
        (c.bits, c.left)
    };
    let entries: &[(&str, usize)] = &match prog.iter().position(|x| x.0 == I::Cut) {
        Some(p) => vec![("w", 0), ("v", p + 1)],
        None => vec![("w", 0)],
    };
    for (name, start) in entries {
        let mut bits = 0u64;
        loop {
            // the model machine
            let (mut pc, mut rs, mut used, mut out, mut ticks) = (*start, vec![], 0usize, String::new(), 0u64);
            let mut aborted = false;
            let mut over = false;
            loop {
                let mut tick = |used: &mut usize, ticks: &mut u64| {
                    if *used >= fuel {
                        return false;
                    }
                    *ticks |= 1 << *used;
                    *used += 1;
                    true
                };
                match prog[pc].0 {
                    I::Label(_) => pc += 1,
                    I::Emit => {
                        out.push(emits(pc));
                        pc += 1;
                    }
                    I::Goto(l) => {
                        if !tick(&mut used, &mut ticks) {
                            aborted = true;
                            break;
                        }
                        pc = at[&l];
                    }
                    I::Call(l) => {
                        if !tick(&mut used, &mut ticks) {
                            aborted = true;
                            break;
                        }
                        rs.push(pc + 1);
                        if rs.len() > 40 {
                            over = true;
                        }
                        pc = at[&l];
                    }
                    I::CondGoto(l) => {
                        if used >= fuel {
                            aborted = true;
                            break;
                        }
                        let b = bits >> used & 1;
                        used += 1;
                        if b == 1 {
                            pc = at[&l];
                        } else {
                            pc += 1;
                        }
                    }
                    I::Exit | I::Cut => match rs.pop() {
                        Some(p) => pc = p,
                        None => break,
                    },
                }
            }
            reset(&mut vm);
            poke(&mut vm, ba, &bits.to_ne_bytes());
            poke(&mut vm, la, &(fuel as u64).to_ne_bytes());
            eval(&mut vm, name);
            let o = obs(&mut vm);
            wk.trans(used as u64 + 1);
            wk.trace();
            let bad = if aborted {
                o.err != -1 || o.out != out
            } else {
                o.err != 0 || o.out != out || o.r != 0 || !o.s.is_empty()
            };
            if bad && !over {
                return fail(
                    text,
                    format!(
                        "running {}, decisions {:b}: expected output {:?}{}, got {:?}, error {}, stack {:?}",
                        name, bits, out, if aborted { " then abort" } else { "" }, o.out, o.err, o.s
                    ),
                );
            }
            let mut k = used;
            let mut next = None;
            while k > 0 {
                k -= 1;
                if ticks >> k & 1 == 0 && bits >> k & 1 == 0 {
                    next = Some((bits & ((1u64 << k) - 1)) | (1 << k));
                    break;
                }
            }
            match next {
                Some(b) => bits = b,
                None => break,
            }
        }
    }
    wk.put_vm(vm);
    Ok(())
}

const NUMS: &[isize] = &[
    0, 1, 2, 31, 32, 63, 64, 65, 127, 128, 500, 511, 512, 997, 998, 999, 1000, 1001, 1023, 1024, 4095, 4096, 65535,
    65536, 1 << 31, 1 << 32, (1 << 32) + 5, isize::MAX, -1, -2, -999, -1000, isize::MIN,
];

/// Label numbers: 1..999 work (each one), the others are refused.
fn numbers(wk: &mut Wk, n: isize, k: usize) -> CaseResult {
    let mut vm = machine(wk)?;
    let text = match k {
        0 => format!("0labels : w [ {} ] goto 1 . [ {} ] label 2 . ;", n, n),
        1 => format!("0labels : w 5 . [ {} ] call 3 . exit [ {} ] label 2 . ;", n, n),
        _ => format!("0labels : w 9 . exit [ {} ] label 4 . ; : v [ {} ] goto ;", n, n),
    };
    wk.note(&text);
    eval(&mut vm, &text);
    clear_out(&mut vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().s(&text));
    let e = err(&vm);
    if 0 < n && n < 1000 {
        if e != 0 {
            return fail(text, format!("label {} refused with error {}", n, e));
        }
        eval(&mut vm, ["w", "w", "v"][k]);
        let o = obs(&mut vm);
        if o.err != 0 || o.out != ["2 ", "5 2 3 ", "4 "][k] {
            return fail(text, format!("output {:?} error {}", o.out, o.err));
        }
    } else {
        if e != -24 {
            return fail(text, format!("label {} must be refused with -24, got {}", n, e));
        }
    }
    wk.put_vm(vm);
    Ok(())
}

/// Two label numbers in one definition do not disturb each other.
fn pairs(wk: &mut Wk, a: isize, b: isize) -> CaseResult {
    let mut vm = machine(wk)?;
    let text = format!(
        "0labels : w [ {a} ] goto 1 . [ {b} ] label 2 . exit [ {a} ] label 3 . [ {b} ] goto ;",
        a = a,
        b = b
    );
    wk.note(&text);
    eval(&mut vm, &text);
    clear_out(&mut vm);
    wk.trans(1);
    wk.trace();
    let e = err(&vm);
    if a == b {
        if e != -24 {
            return fail(text, format!("a label placed twice must be error -24, got {}", e));
        }
    } else {
        eval(&mut vm, "w");
        let o = obs(&mut vm);
        if e != 0 || o.err != 0 || o.out != "3 2 " {
            return fail(text, format!("errors {} {} output {:?}", e, o.err, o.out));
        }
    }
    wk.put_vm(vm);
    Ok(())
}

/// A label that is never placed is reported, whatever its number, and another
/// label that is placed does not hide it; the number can be used afterwards.
fn missing(wk: &mut Wk, a: isize, b: isize) -> CaseResult {
    let mut vm = machine(wk)?;
    for k in 0..4 {
        let text = match k {
            0 => format!("0labels : w [ {a} ] goto [ {b} ] goto [ {b} ] label 1 . ;"),
            1 => format!("0labels : w [ {b} ] label [ {a} ] goto [ {b} ] goto 1 . ;"),
            2 => format!("0labels : w [ {a} ] call [ {b} ] label 1 . ;"),
            _ => format!("0labels : w [ {b} ] goto [ {a} ] label 1 . [ {b} ] call ;"),
        };
        if a == b && k != 0 {
            continue;
        }
        wk.note(&text);
        let old = vm.find("w");
        eval(&mut vm, &text);
        wk.trans(1);
        wk.trace();
        let e = err(&vm);
        if a == b {
            if e != 0 {
                return fail(text, format!("refused with error {}", e));
            }
        } else {
            if e != -22 {
                return fail(text, format!("a label that is never placed must be error -22, got {}", e));
            }
            recover(&mut vm);
            if vm.find("w") != old {
                return fail(text, "the refused word is visible");
            }
            let next = format!("0labels : w [ {a} ] goto 1 . [ {a} ] label [ {b} ] goto 2 . [ {b} ] label 3 . ;");
            eval(&mut vm, &next);
            clear_out(&mut vm);
            if err(&vm) == 0 {
                eval(&mut vm, "w");
            }
            let o = obs(&mut vm);
            if o.err != 0 || o.out != "3 " {
                return fail(text, format!("afterwards `{}`: error {} output {:?}", next, o.err, o.out));
            }
        }
        clear_out(&mut vm);
    }
    wk.put_vm(vm);
    Ok(())
}

/// Labels and jumps with n words between them.
const FAR: &[(&str, fn(isize) -> Vec<isize>)] = &[
    ("[ 5 ] goto {} [ 5 ] label 7 +", |_| vec![0, 7]),
    ("[ 5 ] call 1000 + exit {} [ 5 ] label 7 +", |_| vec![0, 1007]),
    ("[ 5 ] label {} swap 1+ swap over 3 = if exit then [ 5 ] goto", |n| vec![3, 3 * n]),
    ("[ 6 ] goto [ 5 ] label 7 + exit {} [ 6 ] label [ 5 ] call 1000 +", |_| vec![0, 1007]),
    ("{} [ 5 ] goto {} [ 6 ] label 1000 + exit [ 5 ] label 7 + [ 6 ] goto", |n| vec![0, n + 1007]),
    ("[ 5 ] goto [ 6 ] label 2 + exit {} [ 5 ] label 7 + [ 6 ] call", |_| vec![0, 9]),
];

fn far(wk: &mut Wk, i: u64) -> CaseResult {
    let (text, f) = FAR[(i % FAR.len() as u64) as usize];
    let n = (i / FAR.len() as u64) as isize;
    let n = if n < 300 { n } else { 300 + (n - 300) * 83 };
    let mut vm = machine(wk)?;
    let room = vm.data_space().limit() - vm.data_space().here();
    if text.matches("{}").count() * n as usize * 8 + 3000 > room {
        wk.put_vm(vm);
        return Ok(());
    }
    let key = format!("0labels : w {} ; with {} times 1+", text, n);
    wk.note(&key);
    eval(&mut vm, "marker -far");
    eval(&mut vm, &format!("0labels : w {} ;", text.replace("{}", &"1+ ".repeat(n as usize))));
    eval(&mut vm, "0 0 w");
    let o = obs(&mut vm);
    wk.trans(n as u64);
    wk.trace();
    wk.state(H::new().s(&key));
    if o.err != 0 || o.s != f(n) || o.r != 0 {
        return fail(key, format!("expected {:?}, got {:?} error {} return stack {}", f(n), o.s, o.err, o.r));
    }
    reset(&mut vm);
    eval(&mut vm, "-far");
    wk.put_vm(vm);
    Ok(())
}

/// Every one of `m` forward references to a label arrives, and so do those behind it.
fn chains(wk: &mut Wk, n: isize, m: usize) -> CaseResult {
    let mut vm = machine(wk)?;
    let mut text = "0labels : w case ".to_string();
    for j in 0..m {
        text += &format!("{} of [ {} ] goto endof ", j, n);
    }
    text += &format!(
        "{m} of [ 7 ] call 9 . exit endof endcase 1 . exit [ {n} ] label 2 . exit [ 7 ] label 3 . [ {n} ] goto ;"
    );
    wk.note(&text);
    eval(&mut vm, &text);
    wk.trace();
    if err(&vm) != 0 {
        return fail(text, format!("refused with error {}", err(&vm)));
    }
    for j in 0..=m + 1 {
        clear_out(&mut vm);
        eval(&mut vm, &format!("{} w", j));
        wk.trans(1);
        let o = obs(&mut vm);
        let x = if j < m {
            "2 "
        } else if j == m {
            "3 2 9 "
        } else {
            "1 "
        };
        if o.err != 0 || o.out != x || !o.s.is_empty() {
            return fail(text, format!("{} w: error {} output {:?} stack {:?}", j, o.err, o.out, o.s));
        }
    }
    wk.put_vm(vm);
    Ok(())
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![];
    for n in 0..=7 {
        scopes.push(Scope::new(
            &format!("all programs of {} items over two labels, all decisions", n),
            (ITEMS as u64).pow(n as u32),
            if n >= 5 { 2048 } else { 32 },
            move |wk, i| program(wk, n, ITEMS, if t { 10 } else { 6 }, i),
        ));
    }
    for n in 2..=(if t { 7 } else { 6 }) {
        scopes.push(Scope::new(
            &format!("two definitions sharing labels, {} items in all", n),
            (10u64).pow(n as u32),
            if n >= 5 { 2048 } else { 32 },
            move |wk, i| program(wk, n, 10, 6, i),
        ));
    }
    let nn = NUMS.len() as u64;
    scopes.push(Scope::new("label numbers 1..999, goto and call", 999 * 3, 128, |wk, i| {
        numbers(wk, (i / 3) as isize + 1, (i % 3) as usize)
    }));
    scopes.push(Scope::new("boundary label numbers, goto and call", nn * 3, 16, |wk, i| {
        numbers(wk, NUMS[(i / 3) as usize], (i % 3) as usize)
    }));
    let m = 999;
    scopes.push(Scope::new("each label number never placed, beside others", 999 * 5, 64, move |wk, i| {
        let a = (i / 5) as isize + 1;
        missing(wk, a, [1, 64, 500, 999, a % 999 + 1][(i % 5) as usize])
    }));
    let q = if t { 999 } else { 200 };
    scopes.push(Scope::new("pairs of a label never placed and one placed", q * q, 256, move |wk, i| {
        missing(wk, (i % q) as isize + 1, (i / q) as isize + 1)
    }));
    scopes.push(Scope::new("labels as far away as the data space allows", 420 * FAR.len() as u64, 8, far));
    scopes.push(Scope::new("chains of forward references", 61 * 4, 4, |wk, i| {
        chains(wk, [1, 8, 64, 999][(i % 4) as usize], (i / 4) as usize)
    }));
    scopes.push(Scope::new("pairs of label numbers", m * m, 512, move |wk, i| {
        pairs(wk, (i % m) as isize + 1, (i / m) as isize + 1)
    }));
    Property {
        id: "C08",
        assumptions: vec!["endless programs are cut off by an abort after a bounded number of jumps".into()],
        scopes,
    }
}
