//! C01: stack-shuffling words.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;

const DATA: &[&str] = &[
    "dup", "drop", "swap", "over", "nip", "rot", "-rot", "2dup", "2drop", "2swap", "2over", "tuck",
    "?dup", "depth", "0 pick", "1 pick", "2 pick", "3 pick", "4 pick",
];
const RET: &[&str] = &[">r", "r>", "r@", "2>r", "2r>", "2r@"];

/// Reference: apply `w`; None when an operand is missing.
fn model(w: &str, s: &mut Vec<isize>, r: &mut Vec<isize>) -> Option<()> {
    let n = s.len();
    let need = |k: usize| if n >= k { Some(()) } else { None };
    match w {
        "dup" => {
            need(1)?;
            s.push(s[n - 1])
        }
        "drop" => {
            s.pop()?;
        }
        "swap" => {
            need(2)?;
            s.swap(n - 1, n - 2)
        }
        "over" => {
            need(2)?;
            s.push(s[n - 2])
        }
        "nip" => {
            need(2)?;
            s.remove(n - 2);
        }
        "rot" => {
            need(3)?;
            let x = s.remove(n - 3);
            s.push(x)
        }
        "-rot" => {
            need(3)?;
            let x = s.pop()?;
            s.insert(n - 3, x)
        }
        "2dup" => {
            need(2)?;
            s.push(s[n - 2]);
            s.push(s[n - 1])
        }
        "2drop" => {
            need(2)?;
            s.truncate(n - 2)
        }
        "2swap" => {
            need(4)?;
            let (a, b) = (s.remove(n - 4), s.remove(n - 4));
            s.push(a);
            s.push(b)
        }
        "2over" => {
            need(4)?;
            s.push(s[n - 4]);
            s.push(s[n - 3])
        }
        "tuck" => {
            need(2)?;
            let x = s[n - 1];
            s.insert(n - 2, x)
        }
        "?dup" => {
            need(1)?;
            if s[n - 1] != 0 {
                s.push(s[n - 1])
            }
        }
        "depth" => s.push(n as isize),
        ">r" => r.push(s.pop()?),
        "r>" => s.push(r.pop()?),
        "r@" => s.push(*r.last()?),
        "2>r" => {
            need(2)?;
            let b = s.pop()?;
            let a = s.pop()?;
            r.push(a);
            r.push(b)
        }
        "2r>" => {
            if r.len() < 2 {
                return None;
            }
            let b = r.pop()?;
            let a = r.pop()?;
            s.push(a);
            s.push(b)
        }
        "2r@" => {
            if r.len() < 2 {
                return None;
            }
            s.push(r[r.len() - 2]);
            s.push(r[r.len() - 1])
        }
        w => {
            let k: usize = w.strip_suffix(" pick")?.parse().ok()?;
            need(k + 1)?;
            s.push(s[n - 1 - k])
        }
    }
    Some(())
}

fn start(depth: usize, zero_top: bool) -> Vec<isize> {
    let mut v: Vec<isize> = (0..depth as isize).map(|i| 1000 + 17 * i).collect();
    if zero_top && depth > 0 {
        v[depth - 1] = 0;
    }
    v
}

fn load(vm: &mut VM, v: &[isize]) {
    for x in v {
        vm.s_stack().push(*x);
    }
}

fn seq(wk: &mut Wk, words: &[&str], s0: Vec<isize>, compiled: bool) -> CaseResult {
    let (mut s, mut r) = (s0.clone(), vec![]);
    let mut prog = String::new();
    for w in words {
        // ?dup and tuck may be colon definitions that need spare cells while they run.
        let spare = if ["?dup", "tuck"].contains(w) { 2 } else { 0 };
        if s.len() + spare > 64
            || model(w, &mut s, &mut r).is_none()
            || s.len() > 64
            || r.len() > 40
        {
            return Ok(()); // an operand is missing: not a case of this property
        }
        prog.push_str(w);
        prog.push(' ');
    }
    let drained = r.len();
    while let Some(x) = r.pop() {
        prog.push_str("r> ");
        s.push(x);
    }
    if s.len() > 64 {
        return Ok(());
    }
    let _ = drained;
    let src = if compiled { format!(": zz {}; zz", prog) } else { prog };
    wk.note(&format!("stack of {} cells {:?}: {}", s0.len(), &s0[s0.len().saturating_sub(6)..], src));
    let mut vm = wk.take_vm();
    if compiled && room(&mut vm) < 2048 {
        vm = new_vm();
    }
    reset(&mut vm);
    load(&mut vm, &s0);
    eval(&mut vm, &src);
    let o = obs(&mut vm);
    wk.put_vm(vm);
    wk.trans(words.len() as u64);
    wk.trace();
    wk.state(H::new().sl(&o.s).i(o.err).u(o.r as u64));
    if o.err != 0 || o.s != s || o.r != 0 || !o.f.is_empty() || o.compiling {
        return fail(
            format!("{:?} {}", s0, src),
            format!("expected stack {:?}, got {:?} (error {}, return depth {})", s, o.s, o.err, o.r),
        );
    }
    Ok(())
}

pub fn property(t: bool) -> Property {
    let l = 5;
    let nd = DATA.len() as u64;
    let starts: u64 = 14;
    let all: Vec<&'static str> = DATA.iter().chain(RET.iter()).cloned().collect();
    let na = all.len() as u64;
    let lc = if t { 5 } else { 4 };
    let all2 = all.clone();
    let a3 = all.clone();
    Property {
        id: "C01",
        assumptions: vec![
            "stack contents are distinct marker values; the words are data-independent except ?dup, for which a zero top is enumerated".into(),
            "operands present and capacity respected (missing operands belong to C03)".into(),
        ],
        scopes: vec![
            Scope::new(
                &format!("interpreted: all sequences of {} words x 14 start stacks", l),
                nd.pow(l as u32) * starts,
                4096,
                move |wk, i| {
                    let st = i % starts;
                    let w: Vec<&str> =
                        digits(i / starts, nd, l).iter().map(|d| DATA[*d]).collect();
                    seq(wk, &w, start((st / 2) as usize, st % 2 == 1), false)
                },
            ),
            Scope::new(
                &format!("compiled, with return stack: all sequences of {} words x 5 start stacks", lc),
                na.pow(lc as u32) * 5,
                256,
                move |wk, i| {
                    let st = [0usize, 2, 3, 4, 6][(i % 5) as usize];
                    let w: Vec<&str> = digits(i / 5, na, lc).iter().map(|d| all[*d]).collect();
                    seq(wk, &w, start(st, i % 2 == 1), true)
                },
            ),
            Scope::new(
                "return-stack words only, compiled: all sequences of 6 words",
                6u64.pow(6) * 2,
                256,
                move |wk, i| {
                    let w: Vec<&str> = digits(i / 2, 6, 6).iter().map(|d| RET[*d]).collect();
                    seq(wk, &w, start(6, i % 2 == 1), true)
                },
            ),
            Scope::new(
                "every word pair at every depth 0..64, interpreted and compiled",
                65 * na * na * 2,
                512,
                move |wk, i| {
                    let c = i % 2 == 1;
                    let i = i / 2;
                    let d = (i % 65) as usize;
                    let w = [all2[((i / 65) % na) as usize], all2[(i / 65 / na) as usize]];
                    if !c && w.iter().any(|w| RET.contains(w)) {
                        return Ok(());
                    }
                    seq(wk, &w, start(d, (i / 65) % 3 == 1), c)
                },
            ),
            Scope::new("pick: every index at every depth", 65 * 64, 128, move |wk, i| {
                let (d, k) = ((i % 65) as usize, (i / 65) as usize);
                if k >= d || d > 63 {
                    return Ok(());
                }
                let w = format!("{} pick", k);
                seq(wk, &[&w], start(d, false), k % 2 == 0)
            }),
            Scope::new("the same words in other letter cases", na, 8, move |wk, i| {
                let w = a3[i as usize];
                if RET.contains(&w) {
                    return Ok(());
                }
                let s0 = start(6, false);
                let (mut s, mut r) = (s0.clone(), vec![]);
                model(w, &mut s, &mut r);
                let vm = wk.vm();
                reset(vm);
                load(vm, &s0);
                eval(vm, &w.to_uppercase());
                let o = obs(vm);
                wk.trans(1);
                if o.err != 0 || o.s != s {
                    return fail(w.to_uppercase(), format!("expected {:?}, got {:?}", s, o.s));
                }
                Ok(())
            }),
        ],
    }
}
