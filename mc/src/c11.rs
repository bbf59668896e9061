//! C11: words made by defining words keep their own, independent data.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;

const VALS: &[isize] = &[0, 1, -1, 255, 256, -129, isize::MAX, isize::MIN, 1 << 32, 0x0102030405060708];
const FVALS: &[(&str, f64)] = &[("0e", 0.0), ("1.5e", 1.5), ("-2.25e", -2.25), ("1024e", 1024.0), ("-0.125e", -0.125)];

const PRELUDE: &str = ": const, create , does> @ ; \
: cnt, create , does> dup @ 1+ dup rot ! ; \
: arr, create dup , 0 do i 10 * , loop does> swap 1+ cells + ; \
: pair, create , , does> 2@ ; \
: twice, create , does> @ 2 * ; \
: again, create , does> dup @ swap ! 5 ; \
: str, create c, c, c, does> count + c@ ; \
: f3 3 ; : f4 4 ; \
0 1 cells +field p.x 1 cells +field p.y 2 cells +field p.z constant p.size ";

/// What an object is and must give.
#[derive(Clone, Debug)]
enum O {
    Const(isize),
    Var(isize),
    Two(isize, isize),
    TwoVar(isize, isize),
    FConst(f64),
    FVar(f64),
    Create(Vec<isize>),
    Does(isize),
    Counter(isize),
    Array(Vec<isize>),
    Pair(isize, isize),
    Twice(isize),
    Defer(isize),
    Field(isize),
    Bytes([u8; 3]),
    Struct([isize; 4]),
}

const KINDS: usize = 16;

/// Chosen values first, then those around the powers of two.
fn val(v: usize) -> isize {
    if v < 40 {
        return VALS[v % VALS.len()];
    }
    let m = v - 40;
    let x = (1isize << (m % 64)).wrapping_add((m / 64 % 3) as isize - 1);
    if m / 192 % 2 == 1 { x.wrapping_neg() } else { x }
}

fn make(k: usize, name: &str, v: usize) -> (String, O) {
    let a = val(v);
    let b = val(v * 3 + 1);
    let c = val(v * 7 + 2);
    let (fs, fv) = FVALS[v % FVALS.len()];
    match k {
        0 => (format!("{} constant {}", a, name), O::Const(a)),
        1 => (format!("variable {}", name), O::Var(0)),
        2 => (format!("{} {} 2constant {}", a, b, name), O::Two(a, b)),
        3 => (format!("2variable {}", name), O::TwoVar(0, 0)),
        4 => (format!("{} fconstant {}", fs, name), O::FConst(fv)),
        5 => (format!("fvariable {}", name), O::FVar(0.0)),
        6 => (format!("create {} {} , {} , {} , ", name, a, b, c), O::Create(vec![a, b, c])),
        7 => (format!("{} const, {}", a, name), O::Does(a)),
        8 => (format!("{} cnt, {}", a, name), O::Counter(a)),
        9 => (format!("4 arr, {}", name), O::Array(vec![0, 10, 20, 30])),
        10 => (format!("{} {} pair, {}", a, b, name), O::Pair(a, b)),
        11 => (format!("{} twice, {}", a, name), O::Twice(a)),
        12 => (format!("defer {}", name), O::Defer(0)),
        13 => {
            let at = if v < 40 { (v as isize % 9 - 4) * 8 } else { a };
            (format!("{} 2 cells +field {} drop", at, name), O::Field(at))
        }
        14 => (format!("{} {} 1 str, {} align", v % 200, (v + 9) % 256, name), O::Bytes([1, ((v + 9) % 256) as u8, (v % 200) as u8])),
        15 => (
            format!("create {} p.size allot 0 {n} p.x ! 0 {n} p.y ! 0. {n} p.z 2!", name, n = name).replace("0. ", "0 0 "),
            O::Struct([0; 4]),
        ),
        _ => panic!(),
    }
}

/// A change of the object; None if it has none.
fn change(o: &mut O, name: &str, k: usize) -> Option<String> {
    let v = val(k);
    let w = val(k + 4);
    Some(match o {
        O::Var(x) => {
            *x = v.wrapping_add(w);
            format!("{} {} ! {} {} +!", v, name, w, name)
        }
        O::TwoVar(x, y) => {
            *x = v;
            *y = w;
            format!("{} {} {} 2!", v, w, name)
        }
        O::FVar(x) => {
            let (s, f) = FVALS[k % FVALS.len()];
            *x = f;
            format!("{} {} f!", s, name)
        }
        O::Create(c) => {
            let i = k % 3;
            c[i] = v;
            format!("{} {} {} cells + !", v, name, i)
        }
        O::Array(c) => {
            let i = k % 4;
            c[i] = v;
            format!("{} {} {} !", v, i, name)
        }
        O::Defer(x) => {
            *x = 3 + (k % 2) as isize;
            format!("' f{} ' {} defer!", *x, name)
        }
        O::Struct(s) => match k % 3 {
            0 => {
                s[0] = v;
                format!("{} {} p.x !", v, name)
            }
            1 => {
                s[1] = v;
                format!("{} {} p.y !", v, name)
            }
            _ => {
                s[2] = v;
                s[3] = w;
                format!("{} {} {} p.z 2!", v, w, name)
            }
        },
        // the data field of a word made by CREATE is reached through its token
        O::Does(x) | O::Twice(x) | O::Counter(x) => {
            *x = v;
            format!("{} ' {} >body !", v, name)
        }
        O::Pair(x, y) => {
            *x = v;
            *y = w;
            format!("{} {} ' {} >body 2!", v, w, name)
        }
        O::Bytes(b) => {
            b[2] = (k % 256) as u8;
            format!("{} ' {} >body 2 + c!", b[2], name)
        }
        _ => return None,
    })
}

fn query(o: &mut O, name: &str) -> (String, Vec<isize>, Vec<f64>) {
    match o {
        O::Const(a) => (name.into(), vec![*a], vec![]),
        O::Var(a) => (format!("{} @", name), vec![*a], vec![]),
        O::Two(a, b) => (name.into(), vec![*a, *b], vec![]),
        O::TwoVar(a, b) => (format!("{} 2@", name), vec![*a, *b], vec![]),
        O::FConst(f) => (name.into(), vec![], vec![*f]),
        O::FVar(f) => (format!("{} f@", name), vec![], vec![*f]),
        O::Create(c) => (format!("{n} @ {n} cell+ @ {n} 2 cells + @", n = name), c.clone(), vec![]),
        O::Does(a) => (name.into(), vec![*a], vec![]),
        O::Counter(a) => {
            *a = a.wrapping_add(1);
            (name.into(), vec![*a], vec![])
        }
        O::Array(c) => (format!("0 {n} @ 1 {n} @ 2 {n} @ 3 {n} @", n = name), c.clone(), vec![]),
        O::Pair(a, b) => (name.into(), vec![*a, *b], vec![]),
        O::Twice(a) => (name.into(), vec![a.wrapping_mul(2)], vec![]),
        O::Defer(a) => (name.into(), if *a == 0 { vec![] } else { vec![*a] }, vec![]),
        O::Field(a) => (format!("1000 {}", name), vec![a.wrapping_add(1000)], vec![]),
        O::Bytes(b) => (name.into(), vec![b[2] as isize], vec![]),
        O::Struct(s) => (
            format!("{n} p.x @ {n} p.y @ {n} p.z 2@", n = name),
            vec![s[0], s[1], s[2], s[3]],
            vec![],
        ),
    }
}

fn machine(wk: &mut Wk) -> Result<VM, Fail> {
    let mut vm = wk.take_vm();
    if !wk.store.contains_key(&0) || room(&mut vm) < 6000 {
        vm = new_vm();
        reset(&mut vm);
        eval(&mut vm, PRELUDE);
        if err(&vm) != 0 {
            return fail("prelude", format!("error {}", err(&vm)));
        }
        wk.store.insert(0, Box::new(()));
    }
    reset(&mut vm);
    Ok(vm)
}

/// A history over objects: op < KINDS makes one; otherwise object (op-KINDS) is changed.
fn history(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    let per = KINDS + n - 1;
    let ops = digits(i, per as u64, n);
    let mut vm = machine(wk)?;
    let mut objs: Vec<(String, O)> = vec![];
    let mut done: Vec<String> = vec![];
    for (k, op) in ops.iter().enumerate() {
        let o = op;
        let text = if *o < KINDS {
            let name = format!("o{}-{}", k, i);
            let (t, ob) = make(*o, &name, k * 3 + (i % 7) as usize);
            objs.push((name, ob));
            t
        } else {
            let j = o - KINDS;
            if j >= objs.len() {
                wk.put_vm(vm);
                return Ok(()); // not a history: the object does not exist yet
            }
            let (nm, ob) = &mut objs[j];
            match change(ob, nm, k * 5 + (i % 11) as usize) {
                Some(t) => t,
                None => {
                    wk.put_vm(vm);
                    return Ok(());
                }
            }
        };
        done.push(text.clone());
        let key = done.join(" | ");
        wk.note(&key);
        reset(&mut vm);
        eval(&mut vm, &text);
        let o = obs(&mut vm);
        wk.trans(1);
        if o.err != 0 || !o.s.is_empty() || !o.f.is_empty() || o.compiling {
            return fail(key, format!("{:?}: error {} stack {:?}", text, o.err, o.s));
        }
        if *op < KINDS {
            // compiled now, run after every later change
            let (nm, ob) = objs.last().unwrap();
            let (q, _, _) = query(&mut ob.clone(), nm);
            eval(&mut vm, &format!(": u{} {} ;", nm, q));
        }
        for (nm, ob) in objs.iter_mut() {
            for mode in 0..3 {
                let (q, s, f) = query(ob, nm);
                reset(&mut vm);
                if mode == 0 {
                    eval(&mut vm, &q);
                } else if mode == 1 {
                    eval(&mut vm, &format!("u{}", nm));
                } else {
                    eval(&mut vm, &format!(": qq {} ; qq", q));
                }
                let o = obs(&mut vm);
                let fb: Vec<u64> = f.iter().map(|x| x.to_bits()).collect();
                if o.err != 0 || o.s != s || o.f != fb {
                    return fail(
                        key,
                        format!("{:?}{} must give {:?} {:?}, got {:?} {:?} error {}", q, ["", " compiled before", " compiled now"][mode], s, f, o.s,
                            o.f.iter().map(|x| f64::from_bits(*x)).collect::<Vec<_>>(), o.err),
                    );
                }
                if mode == 1 && k + 1 < ops.len() {
                    break;
                }
            }
        }
        wk.state(H::new().s(&key));
    }
    wk.trace();
    wk.put_vm(vm);
    Ok(())
}

/// Every defining word at every value, and at every alignment of the free space.
fn values(wk: &mut Wk, i: u64) -> CaseResult {
    let k = (i % KINDS as u64) as usize;
    let v = (i / KINDS as u64 % 424) as usize;
    let al = (i / KINDS as u64 / 424) as usize;
    let mut vm = machine(wk)?;
    let name = format!("o{}", i);
    let (t, mut o) = make(k, &name, v);
    let t = format!("align {} allot {}", al, t);
    wk.note(&t);
    eval(&mut vm, &t);
    let e = err(&vm);
    let (q, s, f) = query(&mut o, &name);
    reset(&mut vm);
    eval(&mut vm, &q);
    let ob = obs(&mut vm);
    wk.trans(2);
    wk.trace();
    wk.state(H::new().u(i));
    let fb: Vec<u64> = f.iter().map(|x| x.to_bits()).collect();
    if e != 0 || ob.err != 0 || ob.s != s || ob.f != fb {
        return fail(t, format!("{:?} must give {:?} {:?}, got {:?} {:?}, errors {} {}", q, s, f, ob.s, ob.f, e, ob.err));
    }
    wk.put_vm(vm);
    Ok(())
}

/// Hundreds of words of all kinds, all looked at after all are made and after each round of changes.
fn crowd(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i as usize + 1) * 13;
    let mut vm = new_vm();
    reset(&mut vm);
    eval(&mut vm, PRELUDE);
    let key = format!("{} words", n);
    wk.note(&key);
    let mut objs: Vec<(String, O)> = vec![];
    for k in 0..n {
        if room(&mut vm) < 4000 {
            break;
        }
        let name = format!("o{}", k);
        let (t, mut o) = make((k * 5 + k / 16) % KINDS, &name, k * 3);
        eval(&mut vm, &t);
        let (q, _, _) = query(&mut o.clone(), &name);
        if k % 3 == 0 {
            eval(&mut vm, &format!(": u{} {} ;", name, q));
        }
        if let Some(t) = if k % 2 == 0 { change(&mut o, &name, k) } else { None } {
            eval(&mut vm, &t);
        }
        if err(&vm) != 0 {
            return fail(key, format!("{}: error {}", t, err(&vm)));
        }
        objs.push((name, o));
    }
    for round in 0..3 {
        for (k, (nm, ob)) in objs.iter_mut().enumerate() {
            let (q, s, f) = query(ob, nm);
            reset(&mut vm);
            let t = if k % 3 == 0 && round % 2 == 0 { format!("u{}", nm) } else { q };
            eval(&mut vm, &t);
            let o = obs(&mut vm);
            wk.trans(1);
            let fb: Vec<u64> = f.iter().map(|x| x.to_bits()).collect();
            if o.err != 0 || o.s != s || o.f != fb {
                return fail(key, format!("{:?} of {} must give {:?} {:?}, got {:?} {:?} error {}", t, objs[k].0, s, f, o.s, o.f, o.err));
            }
        }
        for (k, (nm, ob)) in objs.iter_mut().enumerate() {
            if (k + round) % 4 == 0 {
                if let Some(t) = change(ob, nm, k * 7 + round) {
                    eval(&mut vm, &t);
                }
            }
        }
    }
    wk.state(H::new().u(i + 5_000_000));
    wk.trace();
    Ok(())
}

/// Defining words made of each other: child actions assigned again by a second does>.
fn redo(wk: &mut Wk, i: u64) -> CaseResult {
    // a chain of does> actions applied to the last created word
    const ACT: &[(&str, fn(isize) -> isize)] = &[
        ("does> @ ;", |x| x),
        ("does> @ 1+ ;", |x| x + 1),
        ("does> @ negate ;", |x| -x),
        ("does> @ dup 5 > if drop 5 then ;", |x| x.min(5)),
    ];
    let d = digits(i, 5, 4);
    let mut vm = machine(wk)?;
    let tag = format!("r{}", i);
    let mut text = String::new();
    for (k, a) in ACT.iter().enumerate() {
        text.push_str(&format!(": {}a{} {} ", tag, k, a.0));
    }
    text.push_str(&format!(": {}mk create , {} ", tag, ACT[0].0));
    text.push_str(&format!("7 {}mk {}x 8 {}mk {}y ", tag, tag, tag, tag));
    // 4 = no change
    let mut act = 0;
    for a in &d {
        if *a < 4 {
            act = *a;
            text.push_str(&format!("{}a{} ", tag, a));
        }
    }
    text.push_str(&format!("9 {}mk {}z {}x {}y {}z", tag, tag, tag, tag, tag));
    wk.note(&text);
    eval(&mut vm, &text);
    let o = obs(&mut vm);
    wk.trans(d.len() as u64 + 3);
    wk.trace();
    wk.state(H::new().u(i));
    let want = [7, (ACT[act].1)(8), 9];
    if o.err != 0 || o.s != want {
        return fail(text, format!("expected {:?}, got {:?} error {}", want, o.s, o.err));
    }
    wk.put_vm(vm);
    Ok(())
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![Scope::new(
        "every defining word x 424 values x 16 alignments of the free space",
        KINDS as u64 * 424 * 16,
        256,
        values,
    )];
    for n in 1..=5 {
        scopes.push(Scope::new(
            &format!("all histories of {} creations and changes", n),
            ((KINDS + n - 1) as u64).pow(n as u32),
            128,
            move |wk, i| history(wk, n, i),
        ));
    }
    scopes.push(Scope::new("up to 400 words of all kinds at once", 32, 1, crowd));
    scopes.push(Scope::new("chains of does> on the latest word", 625, 32, redo));
    Property { id: "C11", scopes, assumptions: vec![] }
}
