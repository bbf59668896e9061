//! C06: exactly the well-nested definitions are accepted; the others leave nothing behind.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;

const W: &[&str] = &[
    "if", "else", "then", "begin", "while", "repeat", "until", "again", "do", "?do", "loop", "+loop",
    "leave", "case", "of", "endof", "endcase", "noop",
];

#[derive(Clone, Copy, PartialEq)]
enum C {
    If,
    Else,
    Begin,
    While,
    Do,
    Case,
    Of,
    Endof,
}

/// Grammar oracle: None if word k (the k-th) is the first that cannot continue a nesting.
fn accepted(ws: &[usize]) -> Result<(), usize> {
    let mut st: Vec<C> = vec![];
    for (k, w) in ws.iter().enumerate() {
        let top = st.last().cloned();
        let ok = match W[*w] {
            "if" => {
                st.push(C::If);
                true
            }
            "else" => {
                if top == Some(C::If) {
                    st.pop();
                    st.push(C::Else);
                    true
                } else {
                    false
                }
            }
            "then" => {
                st.pop();
                top == Some(C::If) || top == Some(C::Else)
            }
            "begin" => {
                st.push(C::Begin);
                true
            }
            "while" => {
                // reported at the latest by the end of the definition
                st.push(C::While);
                true
            }
            "repeat" => {
                let n = st.len();
                let ok = n >= 2 && st[n - 1] == C::While && st[n - 2] == C::Begin;
                st.pop();
                st.pop();
                ok
            }
            "until" | "again" => {
                st.pop();
                top == Some(C::Begin)
            }
            "do" | "?do" => {
                st.push(C::Do);
                true
            }
            "loop" | "+loop" => {
                st.pop();
                top == Some(C::Do)
            }
            "leave" => st.contains(&C::Do),
            "case" => {
                st.push(C::Case);
                true
            }
            "of" => {
                st.push(C::Of);
                top == Some(C::Case) || top == Some(C::Endof)
            }
            "endof" => {
                st.pop();
                st.push(C::Endof);
                top == Some(C::Of)
            }
            "endcase" => loop {
                match st.pop() {
                    Some(C::Case) => break true,
                    Some(C::Endof) => {}
                    _ => break false,
                }
            },
            _ => true,
        };
        if !ok {
            return Err(k);
        }
    }
    if st.is_empty() {
        Ok(())
    } else {
        Err(ws.len())
    }
}

/// The definition `text` of w is tried over an old w that leaves 5.
fn try_def(wk: &mut Wk, text: &str, want: bool, deep: bool) -> CaseResult {
    let mut vm = wk.take_vm();
    if !wk.store.contains_key(&0) || room(&mut vm) < 8192 {
        vm = new_vm();
        reset(&mut vm);
        eval(&mut vm, ": w 5 ; : x 1 if 2 else 3 then ;");
        wk.store.insert(0, Box::new(vm.find("w").unwrap()));
    }
    let old = *wk.store[&0].downcast_ref::<usize>().unwrap();
    reset(&mut vm);
    wk.note(text);
    let before = vm.find("w");
    eval(&mut vm, text);
    let o = obs(&mut vm);
    wk.trans(text.split(' ').count() as u64);
    wk.trace();
    let _ = old;
    if want {
        if o.err != 0 || o.compiling || o.c != 0 || !o.s.is_empty() || o.r != 0 {
            return fail(text, format!("a well-nested definition was not accepted: error {}, {:?}", o.err, o));
        }
        let now = vm.find("w");
        if now == before || now.is_none() {
            return fail(text, "accepted, but the new definition is not found");
        }
        // for the next case the old w must be the visible one again
        reset(&mut vm);
        eval(&mut vm, ": w 5 ;");
    } else {
        if o.err != -22 {
            return fail(text, format!("expected control structure mismatch (-22), got error {}", o.err));
        }
        if vm.find("w") != before {
            return fail(text, "the rejected definition is visible");
        }
        recover(&mut vm);
        clear_out(&mut vm);
        let probe = if deep { "w : q 0 if 2 else 3 then ; q w" } else { "w x" };
        eval(&mut vm, probe);
        let o2 = obs(&mut vm);
        let want: &[isize] = if deep { &[5, 3, 5] } else { &[5, 2] };
        if o2.err != 0 || o2.s != want {
            return fail(text, format!("after the rejection {:?} gives {:?} error {}", probe, o2.s, o2.err));
        }
    }
    wk.put_vm(vm);
    Ok(())
}

fn sequence(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    let ws = digits(i, W.len() as u64, n);
    let a = accepted(&ws);
    let mut text = String::from(": w");
    for w in &ws {
        text.push(' ');
        text.push_str(W[*w]);
    }
    text.push_str(" ;");
    wk.state(H::new().u(n as u64).u(i));
    try_def(wk, &text, a.is_ok(), n <= 4)
}

/// Openers nested d deep, then closed by c closers.
fn deep(wk: &mut Wk, i: u64) -> CaseResult {
    let k = (i % 4) as usize;
    let d = (i / 4 % 70) as usize + 1;
    let c = (d as i64 + (i / 280) as i64 - 1).max(0) as usize;
    let (o, cl) = [("if", "then"), ("begin", "again"), ("do", "loop"), ("case", "endcase")][k];
    let mut text = String::from(": w");
    for _ in 0..d {
        text.push(' ');
        text.push_str(o);
    }
    for _ in 0..c {
        text.push(' ');
        text.push_str(cl);
    }
    text.push_str(" ;");
    wk.state(H::new().u(i));
    try_def(wk, &text, d == c && d <= 64, true)
}

/// The words that are of use in definitions only.
const ONLY: &[&str] = &[
    "exit", "lit", "flit", "_s\"", "branch", "0branch", "_do", "_qdo", "_loop", "_+loop", "unloop", "leave", "i", "j", ">r", "r>", "r@", "2>r", "2r>", "2r@", "compile,",
    "_postpone", "_does", "[']", "[char]", ";", "if", "else", "then", "case", "of", "endof", "endcase", "begin", "while", "repeat", "until", "again", "label", "goto", "call",
    "recurse", "do", "?do", "loop", "+loop", "postpone", "does>", "pause", "activate", "s\"", ".\"", "literal", "2literal", "fliteral",
];

/// Every ordered pair of openers and closers around a filler, with definitions begun or ended
/// out of place.
fn misplaced(wk: &mut Wk, i: u64) -> CaseResult {
    let w = ONLY[(i / 12) as usize];
    // compile-only words used outside a definition
    let mut vm = wk.take_vm();
    ready(&mut vm, 4096);
    vm.s_stack().push2(3, 4);
    vm.f_stack().push(1.5);
    // on its own, after other words, after a definition, after one that has been given up
    const P: &[&str] = &["{}", "7 drop {} 9", ": d 1 ; {}", ": d [ {}", ": d if [ {}", ": d begin [ {}", ": d begin 1 while [ {}", ": d do [ {}", ": d case [ {}", ": d case 1 of [ {}", ": d if else [ {}", ": d ?do if [ 1 {} ] then loop ;"];
    let text = P[(i % 12) as usize].replace("{}", w);
    let key = format!("{:?} outside a definition", text);
    wk.note(&key);
    if i % 12 >= 3 {
        // compile-only words are compile-only between [ and ] as well
        eval(&mut vm, &text);
        let e = err(&vm);
        recover(&mut vm);
        if e != -14 {
            return fail(key, format!("expected -14 (interpreting a compile-only word), got error {}", e));
        }
        wk.put_vm(vm);
        return Ok(());
    }
    eval(&mut vm, &text);
    let o = obs(&mut vm);
    if o.s.contains(&9) || o.r != 0 {
        return fail(key, format!("the line went on: {:?}", o));
    }
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i));
    if o.err != -14 || o.compiling || o.c != 0 {
        return fail(key, format!("expected -14 (interpreting a compile-only word), got error {}", o.err));
    }
    recover(&mut vm);
    eval(&mut vm, ": v 1 if 6 then ; v");
    if vm.s_stack().as_slice() != [6] {
        return fail(key, "not usable afterwards");
    }
    wk.put_vm(vm);
    Ok(())
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![];
    for n in 0..=(if t { 6 } else { 5 }) {
        scopes.push(Scope::new(
            &format!("all sequences of {} control words", n),
            (W.len() as u64).pow(n as u32),
            if n >= 5 { 4096 } else { 64 },
            move |wk, i| sequence(wk, n, i),
        ));
    }
    scopes.push(Scope::new("nesting depth 1..70, one closer too few to one too many", 4 * 70 * 3, 35, deep));
    scopes.push(Scope::new("words of definitions, outside one", ONLY.len() as u64 * 12, 4, misplaced));
    Property {
        id: "C06",
        assumptions: vec!["the control stack holds 64 entries; deeper nesting is rejected".into()],
        scopes,
    }
}
