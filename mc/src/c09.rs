//! C09: name lookup finds the latest completed definition, whatever the history.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use std::collections::BTreeMap;

/// Name stems: the first two and the last two collide in the hash of the word list.
const STEMS: &[&str] = &["a}", "b\\", "zork", "a~"];
const KINDS: usize = 8;

fn variant(s: &str, k: usize) -> String {
    match k {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        _ => s
            .chars()
            .enumerate()
            .map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c })
            .collect(),
    }
}

fn history(wk: &mut Wk, n: usize, stems: usize, i: u64) -> CaseResult {
    let mut vm = wk.take_vm();
    if room(&mut vm) < 4096 {
        vm = new_vm();
    }
    let per = (KINDS * stems) as u64;
    let ops = digits(i, per, n);
    let names: Vec<String> = STEMS[..stems].iter().map(|s| format!("{}{}x", s, i)).collect();
    let mut model: BTreeMap<usize, isize> = BTreeMap::new();
    let mut done: Vec<String> = vec![];
    for (k, op) in ops.iter().enumerate() {
        let s = op % stems;
        let other = (s + 1) % stems;
        let kind = op / stems;
        let v = (k as isize + 1) * 7;
        let nm = variant(&names[s], k % 3);
        let on = variant(&names[other], (k + 1) % 3);
        let (text, ok, val): (String, bool, Option<isize>) = match kind {
            0 => (format!(": {} {} ;", nm, v), true, Some(v)),
            1 => (format!("{} constant {}", v, nm), true, Some(v)),
            2 => (format!("create {} does-{}", nm, v), true, Some(v)),
            3 => (format!(": {} {} nosuchword ;", nm, v), false, None),
            4 => match model.get(&other) {
                Some(x) => (format!(": {} {} 1000 + ;", nm, on), true, Some(x + 1000)),
                None => (format!(": {} {} 1000 + ;", nm, on), false, None),
            },
            5 => match model.get(&s) {
                Some(x) => (format!(": {} {} 100 + ;", nm, nm), true, Some(x + 100)),
                None => (format!(": {} {} 100 + ;", nm, nm), false, None),
            },
            // a definition that is given up by a structure error
            6 => (format!(": {} {} if ;", nm, v), false, None),
            // a definition whose name appears in its own body by recursion
            _ => (format!(": {} dup if 1- recurse else drop {} then ;", nm, v), true, Some(v)),
        };
        let text = text.replace(&format!("does-{}", v), &format!("{} , ", v));
        done.push(text.clone());
        let key = done.join(" | ");
        wk.note(&key);
        reset(&mut vm);
        eval(&mut vm, &text);
        let o = obs(&mut vm);
        wk.trans(1);
        let redef = model.contains_key(&s);
        let want_out = if redef { format!("Redefining {}", nm.to_ascii_lowercase()) } else { String::new() };
        if o.out != want_out {
            return fail(key, format!("expected the message {:?}, got {:?}", want_out, o.out));
        }
        if ok {
            if o.err != 0 {
                return fail(key, format!("the definition failed with error {}", o.err));
            }
            model.insert(s, val.unwrap() * 10 + [0, 0, 1, 0, 0, 0, 0, 2][kind]);
            // strip the kind again for use in later definitions
            let x = model[&s];
            if x % 10 == 0 {
                model.insert(s, x / 10);
            } else {
                model.insert(s, x / 10);
                wk.store.insert(s as u64 + 10, Box::new(x % 10));
            }
            if x % 10 == 0 {
                wk.store.remove(&(s as u64 + 10));
            }
        } else if o.err == 0 {
            return fail(key, "a definition that must fail succeeded");
        }
        recover(&mut vm);
        // query every name in every case variant
        for q in 0..stems {
            for c in 0..3 {
                let w = variant(&names[q], c);
                reset(&mut vm);
                let kind = wk.store.get(&(q as u64 + 10)).map(|b| *b.downcast_ref::<isize>().unwrap()).unwrap_or(0);
                let text = match (kind, model.contains_key(&q)) {
                    (1, true) => format!("{} @", w),
                    (2, true) => format!("3 {}", w),
                    _ => w.clone(),
                };
                eval(&mut vm, &text);
                let o = obs(&mut vm);
                match model.get(&q) {
                    Some(x) => {
                        if o.err != 0 || o.s != [*x] {
                            return fail(key, format!("{:?} must give {}, got {:?} error {}", text, x, o.s, o.err));
                        }
                    }
                    None => {
                        if o.err != -13 {
                            return fail(key, format!("{:?} must be undefined (-13), got {:?} error {}", text, o.s, o.err));
                        }
                        recover(&mut vm);
                    }
                }
            }
        }
        wk.state(H::new().s(&key));
        // Words that are not plain values cannot be used by kinds 4 and 5 as such.
        if let Some(k) = wk.store.get(&(s as u64 + 10)) {
            let k = *k.downcast_ref::<isize>().unwrap();
            let _ = k;
        }
        // Give such a word a plain value by wrapping it, so that later operations compose.
        if wk.store.contains_key(&(s as u64 + 10)) && k + 1 < ops.len() {
            let kind = *wk.store[&(s as u64 + 10)].downcast_ref::<isize>().unwrap();
            let wrap = if kind == 1 {
                format!(": {0} {0} @ ;", names[s])
            } else {
                format!(": {0} 2 {0} ;", names[s])
            };
            reset(&mut vm);
            eval(&mut vm, &wrap);
            if err(&vm) != 0 {
                return fail(key, format!("{:?} failed with error {}", wrap, err(&vm)));
            }
            done.push(wrap);
            wk.store.remove(&(s as u64 + 10));
        }
    }
    for q in 0..4 {
        wk.store.remove(&(q + 10));
    }
    wk.trace();
    wk.put_vm(vm);
    Ok(())
}

/// The text of every name in the word list, by token.
pub fn all_words(vm: &mut VM) -> Vec<(usize, String)> {
    let mut v = vec![];
    for xt in 1..5000usize {
        reset(vm);
        vm.s_stack().push(xt as isize);
        eval(vm, ">name");
        if err(vm) != 0 {
            recover(vm);
            break;
        }
        let a = vm.s_stack().pop() as usize;
        let s = vm.data_space_start();
        let m = mem(vm);
        let o = a - s;
        let n = usize::from_ne_bytes(m[o..o + 8].try_into().unwrap());
        v.push((xt, String::from_utf8_lossy(&m[o + 8..o + 8 + n]).into_owned()));
    }
    reset(vm);
    v
}

trait Start {
    fn data_space_start(&mut self) -> usize;
}
impl Start for VM {
    fn data_space_start(&mut self) -> usize {
        use rtforth::memory::Memory;
        self.data_space().start()
    }
}

/// Words of the system whose meaning in a line cannot be a plain reference.
fn plain(n: &str) -> bool {
    !n.is_empty()
}

/// Redefine one word of the system; old code keeps its meaning.
fn shadow(wk: &mut Wk, i: u64, m: u64) -> CaseResult {
    let kind = i % 2;
    let wi = (i / 2) as usize;
    let mut vm = new_vm();
    reset(&mut vm);
    let ws = all_words(&mut vm);
    if ws.len() as u64 + 40 > m || ws.len() < 100 {
        return fail("words", format!("{} words in the list", ws.len()));
    }
    let name = match ws.get(wi) {
        Some(x) => x.1.clone(),
        None => return Ok(()),
    };
    if !plain(&name) {
        return Ok(());
    }
    let key = format!("shadow {} ({})", name, ["colon", "constant"][kind as usize]);
    wk.note(&key);
    let pre = "variable vv 3 vv ! : old-1 2 3 over + swap drop vv @ * dup 0< if negate then 0 ?do i drop loop 1 2 max vv +! vv @ ; \
               : old-2 s\" hello\" type 5 0 do i . loop 2.5e f. 1 begin dup 4 < while 1+ repeat ;";
    eval(&mut vm, pre);
    let run = |vm: &mut VM| -> (Vec<isize>, String, isize) {
        reset(vm);
        let (a, b) = (vm.find("old-1").unwrap(), vm.find("old-2").unwrap());
        let v = vm.find("vv").unwrap();
        let _ = v;
        for x in [a, b] {
            vm.execute_word(x);
            vm.run();
        }
        let o = obs(vm);
        (o.s, o.out, o.err)
    };
    let first = run(&mut vm);
    reset(&mut vm);
    let others: Vec<(String, Option<usize>)> = ws.iter().map(|x| (x.1.clone(), vm.find(&x.1))).collect();
    let def = if kind == 0 { format!(": {} 12345 ;", name) } else { format!("12345 constant {}", name) };
    eval(&mut vm, &def);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i));
    if err(&vm) != 0 {
        return fail(key, format!("redefinition failed with error {}", err(&vm)));
    }
    for w in [name.clone(), name.to_ascii_uppercase()] {
        reset(&mut vm);
        eval(&mut vm, &w);
        let o = obs(&mut vm);
        if o.s != [12345] || o.err != 0 {
            return fail(key, format!("{:?} gives {:?} error {} in interpretation", w, o.s, o.err));
        }
    }
    if ![":", ";"].contains(&name.as_str()) {
        reset(&mut vm);
        eval(&mut vm, &format!(": zz 1 {} 2 ; zz", name));
        let o = obs(&mut vm);
        if o.s != [1, 12345, 2] || o.err != 0 {
            return fail(key, format!("compiled, it gives {:?} error {}", o.s, o.err));
        }
    }
    for (n, x) in others {
        if n != name && vm.find(&n) != x {
            return fail(key, format!("the meaning of {:?} changed", n));
        }
    }
    // code compiled before keeps the old meaning: run it twice to compare from equal states
    let mut vm2 = new_vm();
    reset(&mut vm2);
    eval(&mut vm2, pre);
    run(&mut vm2);
    let want = run(&mut vm2);
    let got = run(&mut vm);
    if got != want {
        return fail(key, format!("old code gives {:?} instead of {:?} (first run {:?})", got, want, first));
    }
    Ok(())
}

fn name_of(i: u64, order: u8) -> String {
    let a = (i % 94) as u8 + 33;
    let b = (i / 94) as u8;
    match order {
        _ if b == 0 => (a as char).to_string(),
        0 => format!("{}{}", (b + 32) as char, a as char),
        _ => format!("{}{}", a as char, (b + 32) as char),
    }
}

/// Many short names alive at once: each finds its own value; the absent ones are undefined.
fn group(wk: &mut Wk, g: u64, order: u8) -> CaseResult {
    const N: u64 = 190;
    let mut vm = new_vm();
    reset(&mut vm);
    let total = 94 * 95;
    let mut names: Vec<String> = (0..total).map(|i| name_of(i, order)).collect();
    if order == 2 {
        // neighbours under any hash that is linear in the characters
        names.sort_by_key(|s| {
            let b = s.to_ascii_lowercase();
            let b = b.as_bytes();
            if b.len() == 1 { b[0] as u64 } else { b[0] as u64 * 33 + b[1] as u64 }
        });
    }
    let lo = (g * N) as usize;
    let hi = (lo + N as usize).min(names.len());
    let all: Vec<(usize, String)> = all_words(&mut vm);
    let mut val: BTreeMap<String, isize> = BTreeMap::new();
    let mut xts: BTreeMap<String, Option<usize>> = BTreeMap::new();
    for n in &names[lo..hi] {
        let l = n.to_ascii_lowercase();
        if [":", ";"].contains(&l.as_str()) {
            continue;
        }
        xts.insert(l.clone(), vm.find(&l));
    }
    let _ = all;
    for (k, n) in names[lo..hi].iter().enumerate() {
        let l = n.to_ascii_lowercase();
        if [":", ";"].contains(&l.as_str()) {
            continue;
        }
        reset(&mut vm);
        eval(&mut vm, &format!("{} constant {}", lo + k + 100000, n));
        if err(&vm) != 0 {
            return fail(format!("constant {}", n), format!("error {}", err(&vm)));
        }
        val.insert(l, (lo + k + 100000) as isize);
    }
    for n in &names[lo..hi] {
        for c in [n.to_ascii_lowercase(), n.to_ascii_uppercase()] {
            let l = c.to_ascii_lowercase();
            if let Some(v) = val.get(&l) {
                reset(&mut vm);
                wk.note(&format!("{} names from {}: {}", N, names[lo], c));
                eval(&mut vm, &c);
                wk.trans(1);
                let o = obs(&mut vm);
                if o.err != 0 || o.s != [*v] {
                    return fail(format!("group {}/{} name {}", g, order, c), format!("expected {}, got {:?} error {}", v, o.s, o.err));
                }
            }
        }
        wk.state(H::new().s(n).u(order as u64));
    }
    // names outside the group, with the same first or last character, mean what they meant
    for n in names.iter() {
        let l = n.to_ascii_lowercase();
        if val.contains_key(&l) {
            continue;
        }
        if let Some(x) = vm.find(n) {
            let nm = new_vm().find(n);
            if nm != Some(x) {
                return fail(format!("group {}/{} name {}", g, order, n), "found, but never defined");
            }
        }
        wk.trans(1);
    }
    wk.trace();
    Ok(())
}

/// Immediate and compile-only belong to one definition, not to the name.
fn flags(wk: &mut Wk, i: u64) -> CaseResult {
    let d = digits(i, 4, 3);
    let mut vm = wk.take_vm();
    ready(&mut vm, 4096);
    let nm = format!("fl{}", i);
    let mut text = String::new();
    for (k, f) in d.iter().enumerate() {
        text = format!(
            ": {} {} {}; {} {}",
            nm,
            if f & 1 == 1 { "n# @ 10 * " } else { "" },
            format!("{} {}", k + 1, if f & 1 == 1 { "+ n# ! " } else { "" }),
            if f & 1 == 1 { "immediate" } else { "" },
            if f & 2 == 2 { "compile-only" } else { "" }
        );
        reset(&mut vm);
        if vm.find("n#").is_none() {
            eval(&mut vm, "variable n#");
        }
        eval(&mut vm, "0 n# !");
        eval(&mut vm, &text);
        if err(&vm) != 0 {
            return fail(text, format!("error {}", err(&vm)));
        }
        // interpreted
        reset(&mut vm);
        eval(&mut vm, &nm);
        let o = obs(&mut vm);
        wk.trans(2);
        let key = format!("{:?} definition {}: {}", d, k, text);
        wk.note(&key);
        if f & 2 == 2 {
            if o.err != -14 {
                return fail(key, format!("compile-only word interpreted: error {}", o.err));
            }
            recover(&mut vm);
        } else if o.err != 0 {
            return fail(key, format!("interpreting: error {}", o.err));
        }
        // compiled
        reset(&mut vm);
        eval(&mut vm, "0 n# !");
        eval(&mut vm, &format!(": zz {} ;", nm));
        eval(&mut vm, "n# @");
        let c = vm.s_stack().pop();
        eval(&mut vm, "zz n# @");
        let o = obs(&mut vm);
        let want_c = if f & 1 == 1 { k as isize + 1 } else { 0 };
        let want: Vec<isize> = if f & 1 == 1 { vec![k as isize + 1] } else { vec![k as isize + 1, 0] };
        if o.err != 0 || c != want_c || o.s != want {
            return fail(key, format!("compiled: {} then {:?}, error {}; expected {} then {:?}", c, o.s, o.err, want_c, want));
        }
    }
    wk.state(H::new().u(i));
    wk.trace();
    let _ = text;
    wk.put_vm(vm);
    Ok(())
}

/// Two names of the same length that differ in one character.
fn long_names(wk: &mut Wk, i: u64) -> CaseResult {
    // the i-th pair (length, place)
    let mut n = (((8.0 * i as f64 + 1.0).sqrt() - 1.0) / 2.0) as u64;
    while (n + 1) * (n + 2) / 2 <= i {
        n += 1;
    }
    while n * (n + 1) / 2 > i {
        n -= 1;
    }
    name_pair(wk, n as usize + 1, (i - n * (n + 1) / 2) as usize, i)
}

/// Names with each of the 64 characters from 64 * `i`, asked for in every letter case.
fn char_names(wk: &mut Wk, i: u64) -> CaseResult {
    for c in (i as u32 * 64..i as u32 * 64 + 64).filter_map(char::from_u32) {
        if " \t\r\n".contains(c) {
            continue;
        }
        let mut vm = wk.take_vm();
        ready(&mut vm, 8000);
        let key = format!("the name x{}Y", c.escape_default());
        wk.note(&key);
        // other characters that are the same letter only to a reader
        let mut near: Vec<String> = c.to_lowercase().chain(c.to_uppercase()).filter(|d| !d.eq_ignore_ascii_case(&c)).map(|d| format!("x{}y", d)).collect();
        near.extend([format!("x{}", c), format!("{}y", c), "xy".into()]);
        eval(&mut vm, &format!("marker undo-all : x{}Y 3 ; : use-it x{}y ;", c, c));
        let mut bad = None;
        let o = obs(&mut vm);
        if o.err != 0 || !o.out.is_empty() {
            bad = Some(format!("defining it: error {} {:?}", o.err, o.out));
        }
        for q in [format!("x{}Y", c), format!("X{}y", c), format!("x{}y", c.to_ascii_uppercase()), format!("X{}Y", c.to_ascii_lowercase()), "use-it".into()] {
            vm.s_stack().reset();
            eval(&mut vm, &q);
            wk.trans(1);
            let o = obs(&mut vm);
            if bad.is_none() && (o.err != 0 || o.s != [3]) {
                bad = Some(format!("{} gives {:?} error {}", q, o.s, o.err));
            }
        }
        for q in near {
            if bad.is_none() && vm.find(&q).is_some() {
                bad = Some(format!("{} is found, but was not defined", q));
            }
        }
        eval(&mut vm, "undo-all");
        if bad.is_none() && vm.find(&format!("x{}Y", c)).is_some() {
            bad = Some("it is still found after the marker".into());
        }
        wk.state(H::new().u(c as u64));
        if let Some(b) = bad {
            return fail(key, b);
        }
        wk.put_vm(vm);
    }
    wk.trace();
    Ok(())
}

fn name_pair(wk: &mut Wk, n: usize, place: usize, i: u64) -> CaseResult {
    let mut vm = wk.take_vm();
    ready(&mut vm, 8000 + 8 * n);
    eval(&mut vm, "marker undo-all");
    let with = |c: char| -> String { (0..n).map(|k| if k == place { c } else { (b'a' + (k % 26) as u8) as char }).collect() };
    let (a, b, c) = (with('~'), with('|'), with('^'));
    let key = format!("names of {} characters that differ in character {}", n, place);
    wk.note(&key);
    let mut near = vec![c];
    for x in [&a, &b] {
        if n > 1 {
            near.push(x[..n - 1].to_string());
            near.push(x[1..].to_string());
        }
        near.push(format!("{}z", x));
    }
    let near: Vec<(String, Option<usize>)> = near.into_iter().map(|x| (x.clone(), vm.find(&x))).collect();
    let mut r = Ok(());
    for (k, nm) in [&a, &b].iter().enumerate() {
        eval(&mut vm, &format!(": {} {} ; : u{} {} ;", nm, k + 1, k, nm));
        let o = obs(&mut vm);
        if o.err != 0 || o.out.contains(nm.as_str()) {
            r = fail(key.as_str(), format!("defining {}: error {} {:?}", nm, o.err, o.out));
        }
        clear_out(&mut vm);
    }
    for (k, nm) in [&a, &b].iter().enumerate() {
        for q in [nm.to_string(), nm.to_ascii_uppercase(), format!("u{}", k)] {
            vm.s_stack().reset();
            eval(&mut vm, &q);
            wk.trans(1);
            let o = obs(&mut vm);
            if r.is_ok() && (o.err != 0 || o.s != [k as isize + 1]) {
                r = fail(key.as_str(), format!("{} gives {:?} error {}", q, o.s, o.err));
            }
        }
    }
    for (x, f) in near {
        if r.is_ok() && vm.find(&x) != f {
            r = fail(key.as_str(), format!("{} is found, but was not defined", x));
        }
    }
    // the message of a redefinition names it in full
    eval(&mut vm, &format!("3 constant {}", a));
    let o = out(&mut vm);
    if r.is_ok() && o != format!("Redefining {}", a) {
        r = fail(key.as_str(), format!("redefinition shows {:?}", o));
    }
    wk.state(H::new().u(i));
    wk.trace();
    if r.is_ok() {
        reset(&mut vm);
        eval(&mut vm, "undo-all");
        wk.put_vm(vm);
    }
    r
}

/// As many definitions as the data space holds, by names of several patterns.
fn thousand(wk: &mut Wk, i: u64) -> CaseResult {
    let name = |k: usize| -> String {
        match i {
            0 => format!("q{}", k),
            1 => format!("{}q", k),
            2 => format!("{}{}", (b'a' + (k % 26) as u8) as char, "}".repeat(1 + k / 26)),
            3 => "same".into(),
            4 => format!("s{}", k % 7),
            _ => {
                let b: Vec<u8> = (0..10).map(|j| if k >> j & 1 == 1 { b'X' } else { b'~' }).collect();
                String::from_utf8(b).unwrap()
            }
        }
    };
    let mut vm = new_vm();
    reset(&mut vm);
    let mut xts: Vec<usize> = vec![];
    let mut latest: BTreeMap<String, usize> = BTreeMap::new();
    let need = if i == 2 { 2000 } else { 1500 };
    let mut k = 0;
    while room(&mut vm) > need && k < 1024 {
        let nm = name(k);
        reset(&mut vm);
        eval(&mut vm, &format!("{} constant {}", k, nm));
        let o = obs(&mut vm);
        wk.trans(1);
        let key = format!("pattern {} definition {}", i, k);
        wk.note(&key);
        let want = if latest.contains_key(&nm.to_lowercase()) { format!("Redefining {}", nm.to_lowercase()) } else { "".into() };
        if o.err != 0 || o.out != want {
            return fail(key, format!("error {} message {:?}, expected {:?}", o.err, o.out, want));
        }
        let x = vm.find(&nm).unwrap_or(0);
        if xts.contains(&x) || x + 1 != vm.wordlist().len() {
            return fail(key, format!("the token {} is not new", x));
        }
        xts.push(x);
        latest.insert(nm.to_lowercase(), k);
        if k % 64 == 63 || k < 8 || room(&mut vm) <= need {
            for (n, v) in &latest {
                vm.s_stack().reset();
                eval(&mut vm, n);
                let o = obs(&mut vm);
                wk.trans(1);
                if o.s != [*v as isize] || o.err != 0 {
                    return fail(key, format!("{} gives {:?}, error {}", n, o.s, o.err));
                }
            }
            for (v, x) in xts.iter().enumerate() {
                vm.s_stack().reset();
                vm.s_stack().push(*x as isize);
                eval(&mut vm, "execute");
                wk.trans(1);
                if vm.s_stack().as_slice() != [v as isize] {
                    return fail(key, format!("token {} gives {:?}", x, vm.s_stack().as_slice().to_vec()));
                }
            }
        }
        k += 1;
    }
    if k < 400 {
        return fail(format!("pattern {}", i), format!("only {} definitions fit", k));
    }
    wk.state(H::new().u(i).u(k as u64));
    wk.trace();
    Ok(())
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![];
    for n in 1..=4 {
        scopes.push(Scope::new(
            &format!("all histories of {} definitions over {} colliding names", n, if n < 4 { 4 } else { 2 }),
            ((KINDS * if n < 4 { 4 } else { 2 }) as u64).pow(n as u32),
            128,
            move |wk, i| history(wk, n, if n < 4 { 4 } else { 2 }, i),
        ));
    }
    {
        scopes.push(Scope::new("all histories of 4 definitions over 3 names", (KINDS as u64 * 3).pow(4), 128, |wk, i| {
            history(wk, 4, 3, i)
        }));
        scopes.push(Scope::new("all histories of 5 definitions over 2 names", (KINDS as u64 * 2).pow(5), 128, |wk, i| {
            history(wk, 5, 2, i)
        }));
    }
    if t {
        scopes.push(Scope::new("all histories of 5 definitions over 3 names", (KINDS as u64 * 3).pow(5), 1024, |wk, i| {
            history(wk, 5, 3, i)
        }));
    }
    scopes.push(Scope::new("redefining each word of the system", 800, 8, |wk, i| shadow(wk, i, 400)));
    let groups = (94 * 95 + 189) / 190;
    for o in 0..3u8 {
        scopes.push(Scope::new(
            &format!("all names of one or two characters, 190 at a time, order {}", o),
            groups,
            1,
            move |wk, i| group(wk, i, o),
        ));
    }
    scopes.push(Scope::new("immediate and compile-only through three redefinitions", 64, 4, flags));
    let n = 300;
    scopes.push(Scope::new(
        &format!("two names of every length up to {} that differ in one character at every place", n),
        n * (n + 1) / 2,
        32,
        long_names,
    ));
    scopes.push(Scope::new("two names of 301..1300 characters and about 2^11, 2^12, that differ at 16 places", 16 * 1014, 32, |wk, i| {
        let k = (i / 16) as usize;
        let n = if k < 1000 { 301 + k } else { (1 << (11 + (k - 1000) / 7)) - 3 + (k - 1000) % 7 };
        let q = (i % 16) as usize;
        let place = match q {
            0..=3 => q,
            4..=7 => n - 1 - (q - 4),
            8..=10 => (n - 1).min(256 * (q - 8) + 254 + q - 8),
            _ => n * (q - 10) / 6,
        };
        name_pair(wk, n, place, i + 10_000_000)
    }));
    scopes.push(Scope::new("names with every Unicode character, in every letter case", 0x110000 / 64, 16, char_names));
    scopes.push(Scope::new("as many definitions as fit, by six patterns of names", 6, 1, thousand));
    Property {
        id: "C09",
        assumptions: vec!["names are ASCII; case folding is ASCII only".into()],
        scopes,
    }
}
