//! C16: after an error and the usual recovery the system behaves as if the failed line had
//! never been entered.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;

/// (line, expected error)
const F: &[(&str, isize)] = &[
    ("1 2 3 nope 7 v !", -13),
    ("1 0 / 7 v !", -10),
    ("1 0 mod 7 v !", -10),
    ("0 @ 7 v !", -9),
    ("5 -1 ! 7 v !", -9),
    ("drop drop 7 v !", -4),
    (": q1 if 3 nope then ; 7 v !", -13),
    (": q2 begin if do loop loop ; 7 v !", -22),
    (": q3 if ; 7 v !", -22),
    ("then 7 v !", -14),
    ("abort 7 v !", -1),
    ("deep 7 v !", -10),
    ("looped 7 v !", -10),
    ("kept 7 v !", -10),
    ("filled 7 v !", -3),
    ("ffilled 7 v !", -44),
    ("rfilled 7 v !", -5),
    ("fdrop 7 v !", -45),
    (": 7 v !", 0), // a definition named 7, never finished
    (": q4 [ 1 2 nope ] ; 7 v !", -13),
    (": q5 [ 5 ] goto ;  7 v !", -15000),
    ("' nope 7 v !", -13),
    (": q6 postpone nope ; 7 v !", -13),
    (": q7 ['] nope ; 7 v !", -13),
    ("3 base ! 5 . 7 v !", -13),
    ("1 constant", -39),
    (":", -39),
    ("create", -39),
    ("-1 execute 7 v !", -21),
    ("' noop execute deferred 7 v !", -1),
    ("1e0 2e0 fnope 7 v !", -13),
    (": q8 s\" text\" 2dup type nope ; 7 v !", -13),
    ("4 spaces 1 2 3 nope", -13),
    (": q9 case 1 of nope", -13),
    ("100000000 allot 7 v !", -8),
    (": qc [ 5000 ] label ; 7 v !", -15000),
    (": qd s\" no/such/file\" included ; qd 7 v !", -1),
    (": qe immediate compile-only [ qe ] ; 7 v !", -15000),
    (": qf create nope ; 7 v !", -13),
    ("marker mm 1 2 nope", -13),
    (": qg does> nope ; 7 v !", -13),
    (": qh : qi nope ; ; 7 v !", -15000),
    ("see-no-such-word", -13),
    (": qa 1 do i if leave then qb loop", -13),
];

/// Lines that work; each leaves the stacks as it found them and shows something.
const G: &[&str] = &[
    "1 2 + .",
    "v @ .",
    "3 v +! v @ .",
    ": sq dup * ; 7 sq .",
    ": f1 dup 2 > if drop 1 else drop 2 then . ; 1 f1 3 f1",
    ": f2 0 5 0 do i + loop . ; f2",
    ": f3 10 begin 1- dup while dup . repeat drop ; f3",
    ": f4 dup 1 = if drop .\" one\" else 2 = if .\" two\" then then ; 1 f4 2 f4 3 f4",
    "1.5e0 2.25e0 f+ f.",
    ": f5 5 >r r@ . r> . ; f5",
    ": f6 [ 3 ] goto 1 . [ 3 ] label 2 . ; f6",
    "create arr 1 , 2 , 3 , arr 2 cells + @ .",
    "10 constant ten ten .",
    ": rec dup 0> if dup . 1- recurse then ; 4 rec drop",
    "hex ff decimal .",
    "' sqq execute .",
];

const PRELUDE: &str = "variable v 5 v ! variable code \
 : sqq 3 dup * ; : d1 >r 1 0 / r> ; : d2 1 >r 2 d1 r> ; : deep 1 2 3 d2 ; \
 : looped 10 0 do 10 0 do i 5 = if 1 0 / then loop loop ; \
 : kept 1 >r 2 >r 3 >r 1 0 / ; \
 : filled 100 0 do i loop ; : ffilled 100 0 do 1e0 loop ; \
 : rf dup 0> if 1- dup >r recurse r> drop then ; : rfilled 60 rf drop ; \
 defer dd ' abort ' dd defer! : deferred dd ; \
 : quit reset bye ; \
 : (abort) 0stacks error code ! 0error quit ; \
 : go evaluate-input bye ;";

struct Run {
    vm: VM,
    forth: bool,
}

impl Run {
    fn new(forth: bool) -> Run {
        let mut vm = new_vm();
        reset(&mut vm);
        eval(&mut vm, PRELUDE);
        assert_eq!(err(&vm), 0, "prelude: {:?}", vm.last_token());
        if forth {
            eval(&mut vm, "' (abort) handler!");
        }
        vm.s_stack().reset();
        clear_out(&mut vm);
        Run { vm, forth }
    }

    /// Enter one line; returns its error code.
    fn line(&mut self, s: &str) -> isize {
        let vm = &mut self.vm;
        if !self.forth {
            eval(vm, s);
            let e = err(vm);
            if e != 0 {
                recover(vm);
            }
            return e;
        }
        let code = vm.find("code").unwrap();
        let go = vm.find("go").unwrap();
        let a = {
            vm.execute_word(code);
            vm.run();
            vm.s_stack().pop() as usize
        };
        use rtforth::memory::Memory;
        unsafe { vm.data_space().put_isize(0, a) };
        vm.set_source(s);
        vm.state().source_index = 0;
        vm.execute_word(go);
        vm.run();
        let e = unsafe { vm.data_space().get_isize(a) };
        // `go` itself left by bye keeps its return address
        if e == 0 && vm.r_stack().len() == 1 {
            vm.r_stack().reset();
        }
        e
    }
}

const NF: u64 = F.len() as u64;
const NG: u64 = 16;

#[derive(Clone, PartialEq, Debug)]
struct Seen {
    out: String,
    s: Vec<isize>,
    f: usize,
    r: usize,
    c: usize,
    e: isize,
    compiling: bool,
    last: isize,
}

fn observe(r: &mut Run, e: isize) -> Seen {
    let o = obs(&mut r.vm);
    clear_out(&mut r.vm);
    Seen { out: o.out.replace("Redefining ", ""), s: o.s, f: o.f.len(), r: o.r, c: o.c, e, compiling: o.compiling, last: o.err }
}

/// What a line of G shows and the v it leaves, when entered on a fresh system with the given v.
fn expected(g: usize, v: &mut isize) -> String {
    let s = match g {
        0 => "3 ",
        1 => return format!("{} ", v),
        2 => {
            *v += 3;
            return format!("{} ", v);
        }
        3 => "49 ",
        4 => "2 1 ",
        5 => "10 ",
        6 => "9 8 7 6 5 4 3 2 1 ",
        7 => "onetwo",
        8 => "3.7500000 ",
        9 => "5 5 ",
        10 => "2 ",
        11 => "3 ",
        12 => "10 ",
        13 => "4 3 2 1 ",
        14 => "255 ",
        _ => "9 ",
    };
    s.to_string()
}

fn history(wk: &mut Wk, n: usize, forth: bool, faults: u64, i: u64) -> CaseResult {
    let k = if forth { 1 } else { 0 };
    let mut run = match wk.store.remove(&k) {
        Some(b) => *b.downcast::<Run>().unwrap(),
        None => Run::new(forth),
    };
    if room(&mut run.vm) < 16384 || run.vm.wordlist().len() > 2000 {
        run = Run::new(forth);
    }
    let mut v = 5isize;
    let (mut key, mut h) = (String::new(), H::new());
    let r0 = run.line("5 v ! : undo ; 0labels marker undo");
    if r0 != 0 {
        return fail(format!("after {}", i), format!("the next history cannot start: error {}", r0));
    }
    let _ = observe(&mut run, 0);
    let d = digits(i, NG + faults, n);
    if d.iter().all(|x| *x >= faults as usize) {
        // no fault in this history
        run.line("undo");
        wk.store.insert(k, Box::new(run));
        return Ok(());
    }
    for x in d {
        let (line, want) = if (x as u64) < faults {
            (F[x].0, None)
        } else {
            let g = x - faults as usize;
            (G[g], Some(expected(g, &mut v)))
        };
        key = format!("{} | {}", key, line);
        wk.note(&key);
        let e = run.line(line);
        let mut s = observe(&mut run, e);
        h = h.s(line).i(e).s(&s.out);
        wk.trans(1);
        match want {
            None => {
                let we = F[x].1;
                if we == -15000 {
                    if e == 0 {
                        return fail(key, "no error reported");
                    }
                } else if e != we {
                    return fail(key, format!("expected error {}, got {}", we, e));
                }
                if we == 0 {
                    // an unfinished definition: the line is given up
                    if !s.compiling {
                        return fail(key, "not compiling");
                    }
                    let e = run.line("nope");
                    s = observe(&mut run, e);
                }
                if !s.s.is_empty() || s.f != 0 || s.r != 0 || s.c != 0 || s.compiling || s.last != 0 {
                    return fail(key, format!("after the recovery: {:?}", s));
                }
            }
            Some(w) => {
                // a redefined word is announced before it is used
                let names = ["sq", "f1", "f2", "f3", "f4", "f5", "f6", "arr", "ten", "rec"];
                let mut out = s.out.clone();
                for nm in names {
                    if line.contains(&format!(": {} ", nm)) || line.contains(&format!(" {} ", nm)) {
                        if out.starts_with(nm) && !w.starts_with(nm) {
                            out = out[nm.len()..].trim_start().to_string();
                        }
                    }
                }
                if s.e != 0 || out != w || !s.s.is_empty() || s.f != 0 || s.r != 0 || s.c != 0 || s.compiling {
                    return fail(key, format!("expected {:?}, got {:?}", w, s));
                }
                if line.contains("label") {
                    run.line("0labels");
                }
            }
        }
        if x < faults as usize && F[x].0.contains("3 base !") {
            // the base is ordinary data
            run.line("decimal");
            observe(&mut run, 0);
        }
    }
    // The value stored by the lines that worked, and nothing else.
    run.line("decimal v @ .");
    let s = observe(&mut run, 0);
    if s.out != format!("{} ", v) {
        return fail(key, format!("v is {:?}, expected {}", s.out, v));
    }
    wk.trace();
    wk.state(h);
    run.line("0labels undo");
    let s = observe(&mut run, 0);
    if !s.out.is_empty() {
        return fail(key, format!("the marker shows {:?}", s.out));
    }
    wk.store.insert(k, Box::new(run));
    Ok(())
}

/// Every fault at every stack depth and call depth.
fn contexts(wk: &mut Wk, i: u64) -> CaseResult {
    const P: &[(&str, isize)] = &[("1 0 /", -10), ("0 @", -9), ("abort", -1), ("-1 execute", -21)];
    let (p, e) = P[(i % 4) as usize];
    let i = i / 4;
    let depth = (i % 30) as usize;
    let i = i / 30;
    let calls = (i % 8) as usize;
    let i = i / 8;
    let loops = (i % 4) as usize;
    let forth = i / 4 == 1;
    let mut run = Run::new(forth);
    let mut src = String::new();
    for _ in 0..loops {
        src += "3 0 do ";
    }
    src += p;
    for _ in 0..loops {
        src += " loop";
    }
    run.line(&format!(": w0 {} ;", src));
    for k in 0..calls {
        run.line(&format!(": w{} 1 >r w{} r> drop ;", k + 1, k));
    }
    observe(&mut run, 0);
    let line = format!("{}1e w{} 7 v !", "9 ".repeat(depth), calls);
    let key = format!("{} with {} calls, {} loops", line, calls, loops);
    wk.note(&key);
    let g = run.line(&line);
    let s = observe(&mut run, g);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().s(&key));
    if g != e {
        return fail(key, format!("expected error {}, got {}", e, g));
    }
    if !s.s.is_empty() || s.f != 0 || s.r != 0 || s.c != 0 || s.compiling || s.last != 0 || !s.out.is_empty() {
        return fail(key, format!("after the recovery: {:?}", s));
    }
    let mut v = 5;
    for k in 0..NG as usize {
        let w = expected(k, &mut v);
        let e = run.line(G[k]);
        let s = observe(&mut run, e);
        if s.e != 0 || s.out != w || !s.s.is_empty() || s.r != 0 {
            return fail(key, format!("then {}: expected {:?}, got {:?}", G[k], w, s));
        }
    }
    Ok(())
}

/// The same fault over and over, or two faults in turn, with the lines that work in between now and then.
fn often(wk: &mut Wk, i: u64) -> CaseResult {
    let a = (i % NF) as usize;
    let b = [a, (a * 7 + 3) % NF as usize][(i / NF % 2) as usize];
    let forth = i / NF / 2 % 2 == 1;
    let n = [70, 300][(i / NF / 4) as usize];
    let mut run = Run::new(forth);
    run.line(": undo ; 0labels marker undo");
    observe(&mut run, 0);
    let key = format!("{} times {} | {}, {}", n, F[a].0, F[b].0, if forth { "Forth handler" } else { "host recovery" });
    wk.note(&key);
    let mut first: Option<(usize, usize)> = None;
    for k in 0..n {
        let x = if k % 2 == 0 { a } else { b };
        let (line, want) = F[x];
        if room(&mut run.vm) < 8192 || run.vm.wordlist().len() > 1800 {
            run.line("0labels undo");
            run.line(": undo ; 0labels marker undo");
            observe(&mut run, 0);
            first = None;
        }
        let e = run.line(line);
        let mut s = observe(&mut run, e);
        wk.trans(1);
        if if want == -15000 { e == 0 } else { e != want } {
            return fail(key, format!("time {}: expected error {}, got {}", k, want, e));
        }
        if want == 0 {
            let e = run.line("nope");
            s = observe(&mut run, e);
        }
        if !s.s.is_empty() || s.f != 0 || s.r != 0 || s.c != 0 || s.compiling || s.last != 0 {
            return fail(key, format!("time {}, after the recovery: {:?}", k, s));
        }
        if line.contains("3 base !") {
            run.line("decimal");
        }
        if line == "marker mm 1 2 nope" {
            run.line("mm");
        }
        // a fault that defines nothing uses up nothing
        let now = (run.vm.data_space().here(), run.vm.wordlist().len());
        if k % 2 == 1 && !F[a].0.contains(':') && !F[b].0.contains(':') && !F[a].0.contains("create") && !F[b].0.contains("create") {
            match first {
                Some(f) if f != now => return fail(key, format!("time {}: here and words {:?}, they were {:?}", k, now, f)),
                _ => first = Some(now),
            }
        }
        if k % 60 == 59 {
            let mut v = 5;
            run.line("5 v ! 0labels");
            observe(&mut run, 0);
            for g in 0..NG as usize {
                let w = expected(g, &mut v);
                run.line("marker -g");
                observe(&mut run, 0);
                let e = run.line(G[g]);
                let s = observe(&mut run, e);
                if s.e != 0 || !s.out.ends_with(&w) || !s.s.is_empty() || s.r != 0 {
                    return fail(key, format!("after {} times {}: expected {:?}, got {:?}", k, G[g], w, s));
                }
                run.line("0labels -g");
                observe(&mut run, 0);
            }
        }
    }
    wk.state(H::new().s(&key));
    wk.trace();
    Ok(())
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![];
    scopes.push(Scope::new("each fault, or two in turn, 70 and 300 times", NF * 8, 1, often));
    for forth in [false, true] {
        for n in 1..=3usize {
            let nf = if n == 3 && !t { NF } else { NF };
            scopes.push(Scope::new(
                &format!("all histories of {} lines ({} failing, {} good), {}", n, nf, NG, if forth { "Forth handler" } else { "host recovery" }),
                (NG + nf).pow(n as u32),
                128,
                move |wk, i| history(wk, n, forth, nf, i),
            ));
        }
        if t {
            scopes.push(Scope::new(
                &format!("all histories of 4 lines ({} failing, {} good), {}", NF, NG, if forth { "Forth handler" } else { "host recovery" }),
                (NG + NF).pow(4),
                2048,
                move |wk, i| history(wk, 4, forth, NF, i),
            ));
        }
    }
    scopes.push(Scope::new("faults at every data stack, call and loop depth", 4 * 30 * 8 * 4 * 2, 16, contexts));
    Property {
        id: "C16",
        assumptions: vec![
            "the recovery is the one of the example applications: clear the stacks, reset, clear the error".into(),
            "values stored before the error stay stored; space taken by a failed definition is not given back".into(),
        ],
        scopes,
    }
}
