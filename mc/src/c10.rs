//! C10: executing a marker restores the dictionary and the data space it was made in.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;
use std::collections::BTreeMap;

const NAMES: &[&str] = &["a}", "b\\", "nip"];
const MARKS: &[&str] = &["m1", "m2", "-w"];

#[derive(Clone)]
struct St {
    defs: BTreeMap<String, Option<isize>>, // a value, or a marker (None)
    here: usize,
}

struct Mark {
    name: String,
    before: St,
    words: String,
    serial: usize,
}

const OPS: usize = 3 * 3 + 3 + 3 + 4;

fn op(k: usize) -> (u8, usize) {
    match k {
        0..=2 => (0, k),      // colon
        3..=5 => (1, k - 3),  // constant
        6..=8 => (2, k - 6),  // create + allot
        9..=11 => (3, k - 9), // marker
        12..=14 => (4, k - 12), // run a marker
        15 => (5, 0),         // failed definition
        16 => (6, 0),         // allot
        17 => (7, 0),         // does> child
        _ => (8, 0),          // a marker given up: no name
    }
}

fn words_of(vm: &mut VM) -> String {
    clear_out(vm);
    eval(vm, "words");
    let w = out(vm);
    clear_out(vm);
    w
}

fn history(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    let ops = digits(i, OPS as u64, n);
    let mut vm = new_vm();
    reset(&mut vm);
    eval(&mut vm, ": kid create , does> @ ; : probe 3 4 nip ;");
    let nip0 = vm.find("nip");
    let mut st = St { defs: BTreeMap::new(), here: vm.data_space().here() };
    let mut marks: Vec<Mark> = vec![];
    let mut done: Vec<String> = vec![];
    let mut serial = 0;
    for (k, o) in ops.iter().enumerate() {
        let (kind, a) = op(*o);
        let v = k as isize * 11 + 5;
        reset(&mut vm);
        let text = match kind {
            0 => format!(": {} {} ;", NAMES[a], v),
            1 => format!("{} constant {}", v, NAMES[a]),
            2 => format!("create {} {} , {} allot", NAMES[a], v, k + 1),
            3 => format!("marker {}", MARKS[a]),
            4 => MARKS[a].to_string(),
            5 => ": junk 1 2 3 nosuchword ;".to_string(),
            6 => format!("{} allot", k * 3 + 1),
            7 => format!("{} kid {}", v, NAMES[0]),
            _ => "marker".to_string(),
        };
        done.push(text.clone());
        let key = done.join(" | ");
        wk.note(&key);
        let words_before = if kind == 3 { words_of(&mut vm) } else { String::new() };
        let before = st.clone();
        eval(&mut vm, &text);
        let e = err(&vm);
        wk.trans(1);
        let want_err = match kind {
            4 if !st.defs.contains_key(MARKS[a]) => -13,
            5 => -13,
            8 => -39,
            _ => 0,
        };
        if e != want_err {
            return fail(key, format!("expected error {}, got {}", want_err, e));
        }
        recover(&mut vm);
        match kind {
            0 | 1 | 7 => {
                st.defs.insert(NAMES[a].into(), Some(v));
            }
            2 => {
                st.defs.insert(NAMES[a].into(), Some(v));
            }
            3 => {
                serial += 1;
                st.defs.insert(MARKS[a].into(), None);
                marks.push(Mark { name: MARKS[a].into(), before, words: words_before, serial });
            }
            4 if want_err == 0 => {
                let p = marks.iter().rposition(|m| m.name == MARKS[a]).unwrap();
                st = marks[p].before.clone();
                let w = words_of(&mut vm);
                if w != marks[p].words {
                    return fail(key, "the word list is not the one before the marker");
                }
                let h = vm.data_space().here();
                if h != st.here {
                    return fail(key, format!("here is off by {} after the marker ran", h as isize - st.here as isize));
                }
                let s = marks[p].serial;
                marks.retain(|m| m.serial < s);
            }
            _ => {}
        }
        st.here = vm.data_space().here();
        // every name means what it must
        for nm in NAMES.iter().chain(MARKS) {
            match st.defs.get(*nm) {
                None if *nm == "nip" => {
                    if vm.find("nip") != nip0 {
                        return fail(key, "nip is not the word of the system");
                    }
                }
                None => {
                    if vm.find(nm).is_some() {
                        return fail(key, format!("{} is found but must be gone", nm));
                    }
                }
                Some(None) => {
                    if vm.find(nm).is_none() {
                        return fail(key, format!("the marker {} is not found", nm));
                    }
                }
                Some(Some(x)) => {
                    reset(&mut vm);
                    eval(&mut vm, nm);
                    let o = obs(&mut vm);
                    let got = if o.s.len() == 1 {
                        let a = o.s[0] as usize;
                        if vm.data_space().has(a) {
                            isize::from_ne_bytes({
                                let s = vm.data_space().start();
                                mem(&mut vm)[a - s..a - s + 8].try_into().unwrap()
                            })
                        } else {
                            o.s[0]
                        }
                    } else {
                        isize::MIN
                    };
                    if o.err != 0 || got != *x {
                        return fail(key, format!("{} must be {}, got {:?} error {}", nm, x, o.s, o.err));
                    }
                }
            }
        }
        reset(&mut vm);
        eval(&mut vm, "probe 3 4 5 rot kid tmp-kid");
        let o = obs(&mut vm);
        if o.s.len() == 0 || o.s[0] != 4 {
            return fail(key, format!("a word compiled before the markers changed: {:?}", o));
        }
        // undo the temporary child through a marker-free path: it stays, as any definition would
        st.here = vm.data_space().here();
        wk.state(H::new().s(&key));
    }
    wk.trace();
    Ok(())
}

/// Many definitions after a marker, all removed again; and again.
fn many(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i % 120) as usize * 3;
    let rounds = 3;
    let mut vm = new_vm();
    reset(&mut vm);
    eval(&mut vm, "variable keep 77 keep ! : old keep @ ;");
    let w0 = words_of(&mut vm);
    let h0 = vm.data_space().here();
    let key = format!("a marker, {} definitions, the marker, {} times", n, rounds);
    wk.note(&key);
    for r in 0..rounds {
        reset(&mut vm);
        eval(&mut vm, "marker gone");
        for k in 0..n {
            reset(&mut vm);
            eval(&mut vm, &format!(": w{}x{} {} ;", k * 7, r, k));
        }
        if n > 0 {
            reset(&mut vm);
            eval(&mut vm, &format!("w{}x{}", (n - 1) * 7, r));
            if vm.s_stack().as_slice() != [n as isize - 1] {
                return fail(key, "a definition after the marker does not work");
            }
        }
        reset(&mut vm);
        eval(&mut vm, "gone");
        let e = err(&vm);
        wk.trans(n as u64 + 2);
        if e != 0 || vm.data_space().here() != h0 || words_of(&mut vm) != w0 {
            return fail(key, format!("not restored in round {} (error {})", r, e));
        }
        for k in 0..n {
            if vm.find(&format!("w{}x{}", k * 7, r)).is_some() {
                return fail(key, "a removed definition is found");
            }
        }
        if vm.find("gone").is_some() {
            return fail(key, "the marker itself is still found");
        }
        eval(&mut vm, "old");
        if vm.s_stack().as_slice() != [77] {
            return fail(key, "an older definition changed");
        }
    }
    wk.state(H::new().u(i));
    wk.trace();
    Ok(())
}

/// Markers made one after another, words of one name and of their own and pieces of space between them; one of the markers is executed.
fn nested(wk: &mut Wk, i: u64) -> CaseResult {
    // the i-th pair (number of markers, marker)
    let mut n = 1u64;
    while n * (n + 1) / 2 <= i {
        n += 1;
    }
    let j = (i - n * (n - 1) / 2) as usize;
    let n = n as usize;
    let mut vm = new_vm();
    reset(&mut vm);
    let key = format!("marker {} of {}", j, n);
    wk.note(&key);
    let mut at: Option<(String, usize)> = None;
    for k in 0..n + 3 {
        if k == n {
            let e0 = err(&vm);
            eval(&mut vm, &format!("m{}", j));
            if e0 != 0 || err(&vm) != 0 {
                return fail(key, format!("errors {} {}", e0, err(&vm)));
            }
            let (w, h) = at.clone().unwrap();
            if words_of(&mut vm) != w || vm.data_space().here() != h {
                return fail(key, format!("the words or here differ; here {}, it was {}", vm.data_space().here(), h));
            }
            for q in 0..n {
                let (m, x, u) = (vm.find(&format!("m{}", q)), vm.find(&format!("x{}", q)), vm.find(&format!("u{}", q)));
                if m.is_some() != (q < j) || x.is_some() != (q < j) || u.is_some() != (q < j) {
                    return fail(key, format!("m{0}, x{0}, u{0}: {1:?} {2:?} {3:?}", q, m, x, u));
                }
            }
            let f = vm.find("w");
            if f.is_some() != (j > 0) {
                return fail(key, format!("w is {:?}", f));
            }
        }
        if k == j {
            let w = words_of(&mut vm);
            at = Some((w, vm.data_space().here()));
        }
        reset(&mut vm);
        eval(&mut vm, &format!("marker m{0} : w {0} ; variable x{0} {0} x{0} ! {1} allot : u{0} w x{0} @ + ;", k, k * 37 % 300));
        wk.trans(5);
    }
    for q in (0..j).chain(n..n + 3) {
        reset(&mut vm);
        eval(&mut vm, &format!("u{0} x{0} @", q));
        let o = obs(&mut vm);
        if o.err != 0 || o.s != [2 * q as isize, q as isize] {
            return fail(key, format!("u{} and x{}: {:?} error {}", q, q, o.s, o.err));
        }
    }
    reset(&mut vm);
    eval(&mut vm, "w");
    if vm.s_stack().as_slice() != [n as isize + 2] {
        return fail(key, "w is not the latest");
    }
    wk.state(H::new().u(i + 1_000_000));
    wk.trace();
    Ok(())
}

/// A marker shadowing each word of the system restores it.
fn shadow(wk: &mut Wk, i: u64) -> CaseResult {
    let mut vm = new_vm();
    reset(&mut vm);
    let ws = crate::c09::all_words(&mut vm);
    if ws.len() > 400 {
        return fail("words", "more than 400 words");
    }
    let name = match ws.get(i as usize) {
        Some(x) if !x.1.is_empty() => x.1.clone(),
        _ => return Ok(()),
    };
    let key = format!("marker shadow: {}", name);
    wk.note(&key);
    let w0 = words_of(&mut vm);
    let before: Vec<Option<usize>> = ws.iter().map(|w| vm.find(&w.1)).collect();
    for text in [
        format!("marker {0} {0}", name),
        format!("marker mm# : {} 1 ; mm#", name),
        format!("marker mm# marker {0} : {0} 2 ; mm#", name),
        format!("marker {0} marker mm# 5 constant {0} mm# {0}", name),
        format!("marker {0} : {0} 5 nosuch", name),
        format!("marker mm# {0} constant x mm#", 5),
    ] {
        // a text that goes on to use the very word it has just replaced means something else
        let uses = text.split(' ').skip(2).filter(|w| [":", ";", "constant", "marker"].contains(w) && *w == name).count();
        if uses > 0 {
            continue;
        }
        reset(&mut vm);
        eval(&mut vm, &text);
        let failed = err(&vm) != 0;
        recover(&mut vm);
        wk.trans(4);
        if text.contains("nosuch") {
            // the failed definition is hidden; the marker is what is found; run it
            if !failed {
                return fail(key, "the failed definition did not fail");
            }
            eval(&mut vm, &name);
        } else if failed {
            return fail(key, format!("{:?} failed", text));
        }
        if words_of(&mut vm) != w0 {
            return fail(key, format!("the word list differs after {:?}", text));
        }
        for (w, x) in ws.iter().zip(&before) {
            if vm.find(&w.1) != *x {
                return fail(key, format!("{:?} changed its meaning after {:?}", w.1, text));
            }
        }
    }
    wk.state(H::new().u(i));
    wk.trace();
    Ok(())
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![];
    for n in 1..=(if t { 5 } else { 4 }) {
        scopes.push(Scope::new(
            &format!("all histories of {} operations", n),
            (OPS as u64).pow(n as u32),
            64,
            move |wk, i| history(wk, n, i),
        ));
    }
    scopes.push(Scope::new("0..357 definitions after a marker, three rounds", 120, 4, many));
    scopes.push(Scope::new("each of up to 60 markers", 1830, 8, nested));
    scopes.push(Scope::new("a marker in the place of each word of the system", 400, 4, shadow));
    Property {
        id: "C10",
        assumptions: vec!["values stored into older variables are not undone by a marker".into()],
        scopes,
    }
}
