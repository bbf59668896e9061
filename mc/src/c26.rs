//! C26: inspection words show the true state and change none of it.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::exception;
use rtforth::memory::Memory;

struct Bench {
    vm: VM,
    names: Vec<String>, // name of each execution token
}

fn bench(wk: &mut Wk) -> Box<Bench> {
    match wk.store.remove(&0) {
        Some(b) => b.downcast::<Bench>().unwrap(),
        None => {
            let mut vm = new_vm();
            reset(&mut vm);
            for d in [": c.s .s ; ", ": c.memory .memory ; ", ": c.word .word ; ", ": cdump dump ; "] {
                eval(&mut vm, d);
            }
            let names = crate::c09::all_words(&mut vm).into_iter().map(|x| x.1).collect();
            Box::new(Bench { vm, names })
        }
    }
}

fn set_base(vm: &mut VM, b: isize) {
    let a = vm.data_space().system_variables().base_addr();
    unsafe { vm.data_space().put_isize(b, a) }
}

fn get_base(vm: &mut VM) -> isize {
    let a = vm.data_space().system_variables().base_addr();
    unsafe { vm.data_space().get_isize(a) }
}

/// Everything an inspection word must leave alone.
#[derive(PartialEq, Clone, Debug)]
struct Snap {
    o: Obs,
    here: usize,
    words: usize,
    base: isize,
}

fn snap(vm: &mut VM) -> Snap {
    let mut o = obs(vm);
    o.out.clear();
    Snap { o, here: vm.data_space().here(), words: vm.wordlist().len(), base: get_base(vm) }
}

const V: &[isize] = &[0, 1, -1, 10, isize::MAX, isize::MIN];
const F: &[f64] = &[0.0, 1.5, -2.25, 1e10, 0.00000004];

fn show(s: &[isize], f: &[f64]) -> String {
    let mut t = String::new();
    for x in s {
        t += &format!("{} ", x);
    }
    if !f.is_empty() {
        if !s.is_empty() {
            t += " ";
        }
        t += "F: ";
        for x in f {
            t += &format!("{:.7} ", x);
        }
    }
    t
}

fn dot_s(wk: &mut Wk, s: Vec<isize>, f: Vec<f64>, compiled: bool, base: isize) -> CaseResult {
    let mut b = bench(wk);
    let vm = &mut b.vm;
    reset(vm);
    set_base(vm, base);
    for x in &s {
        vm.s_stack().push(*x);
    }
    for x in &f {
        vm.f_stack().push(*x);
    }
    let before = snap(vm);
    let key = format!("{:?} F: {:?} {} base {}", s, f, if compiled { "c.s" } else { ".s" }, base);
    wk.note(&key);
    eval(vm, if compiled { "c.s" } else { ".s" });
    let o = out(vm);
    let after = snap(vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().s(&key));
    if o != show(&s, &f) {
        return fail(key, format!("expected {:?}, got {:?}", show(&s, &f), o));
    }
    if before != after {
        return fail(key, format!("the state changed: {:?} to {:?}", before, after));
    }
    wk.store.insert(0, b);
    Ok(())
}

fn small(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i % 5) as usize;
    let nf = (i / 5 % 4) as usize;
    let mut j = i / 40;
    let mut s = vec![];
    for _ in 0..n {
        s.push(V[(j % 6) as usize]);
        j /= 6;
    }
    let mut f = vec![];
    for _ in 0..nf {
        f.push(F[(j % 5) as usize]);
        j /= 5;
    }
    if j > 0 {
        return Ok(());
    }
    dot_s(wk, s, f, i / 20 % 2 == 1, 10)
}

fn deep(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i % 65) as usize;
    let nf = (i / 65 % 65) as usize;
    let base = [10, 16, 2, 1][(i / 4225 % 4) as usize];
    let s = (0..n).map(|k| V[k % 6].wrapping_add(k as isize * 17)).collect();
    let f = (0..nf).map(|k| F[k % 5] + k as f64).collect();
    // .s itself must not need a cell more than there is
    dot_s(wk, s, f, false, base)
}

const NAMES: &[&str] = &["ab", "q:", "dup"];

/// `words` after every history of definitions.
fn words_hist(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    let ops = digits(i, 12, n);
    let mut vm = wk.take_vm();
    ready(&mut vm, 20000);
    eval(&mut vm, "marker undo-all");
    eval(&mut vm, "words");
    let w0 = out(&mut vm);
    let mut vis: Vec<String> = vec![]; // latest last
    let mut marks: Vec<(usize, Vec<String>)> = vec![];
    let mut done: Vec<String> = vec![];
    let mut r = Ok(());
    for (k, o) in ops.iter().enumerate() {
        reset(&mut vm);
        let a = o % 3;
        let text = match o {
            0..=2 => {
                vis.push(NAMES[a].into());
                format!(": {} 1 ;", NAMES[a])
            }
            3..=5 => {
                vis.push(NAMES[a].to_lowercase());
                format!("{} constant {}", k, NAMES[a].to_uppercase())
            }
            6 => ": bad 1 nosuch ;".into(),
            7 => ": never 1 2".into(),
            8 => {
                vis.push("cr-x".into());
                "create cr-x 3 allot".into()
            }
            9 => {
                marks.push((vis.len(), vis.clone()));
                vis.push("mark".into());
                "marker mark".into()
            }
            10 => match marks.pop() {
                Some((_, v)) => {
                    vis = v;
                    "mark".into()
                }
                None => "noop".into(),
            },
            _ => {
                vis.push("im".into());
                ": im ; immediate".into()
            }
        };
        done.push(text.clone());
        let key = done.join(" | ");
        wk.note(&key);
        eval(&mut vm, &text);
        wk.trans(1);
        // an unfinished definition is looked at while it is open, then given up
        let open = vm.state().is_compiling && *o == 7;
        clear_out(&mut vm);
        if !open {
            recover(&mut vm);
            reset(&mut vm);
        }
        eval(&mut vm, if open { "[ words ]" } else { "words" });
        let got = out(&mut vm);
        let mut want = String::new();
        for v in vis.iter().rev() {
            want += v;
            want += " ";
        }
        want += &w0;
        if err(&vm) != 0 || got != want {
            r = fail(key, format!("words shows {:?}, expected {:?}", &got[..got.len().min(80)], &want[..want.len().min(80)]));
            break;
        }
        recover(&mut vm);
    }
    wk.state(H::new().u(n as u64).u(i));
    wk.trace();
    if r.is_ok() {
        reset(&mut vm);
        eval(&mut vm, "undo-all");
        wk.put_vm(vm);
    }
    r
}

/// .word for every token of the system, and for others.
fn dot_word(wk: &mut Wk, i: u64) -> CaseResult {
    let mut b = bench(wk);
    let n = b.names.len() as i64 + 1;
    let x: i64 = if i < 700 { i as i64 } else { [-1, -2, i64::MIN, i64::MAX, 1 << 32, n, n + 1, n + 64][(i - 700) as usize] };
    if x == 0 {
        wk.store.insert(0, b);
        return Ok(());
    }
    let vm = &mut b.vm;
    reset(vm);
    let key = format!("{} .word", x);
    wk.note(&key);
    let want = match b.names.get(x.wrapping_sub(1) as usize) {
        Some(s) if x > 0 => format!("{} ", s),
        _ => "unknown ".into(),
    };
    for (k, w) in [".word", "c.word"].iter().enumerate() {
        vm.s_stack().push(77);
        vm.s_stack().push(x as isize);
        clear_out(vm);
        eval(vm, w);
        let o = obs(vm);
        vm.s_stack().reset();
        wk.trans(1);
        if o.err != 0 || o.s != [77] || o.out != want {
            return fail(key, format!("expected {:?}, got {:?} error {} stack {:?} ({})", want, o.out, o.err, o.s, k));
        }
    }
    // the name that `'` finds belongs to the token it gives, if it is the latest of its name
    if x > 0 && want != "unknown " && !want.trim().is_empty() {
        let nm = want.trim().to_string();
        if let Some(t) = vm.find(&nm) {
            clear_out(vm);
            eval(vm, &format!("' {} dup .word", nm));
            let o = obs(vm);
            if o.err != 0 || o.s != [t as isize] || o.out != want {
                return fail(key, format!("' {} .word shows {:?}", nm, o.out));
            }
        }
    }
    wk.state(H::new().s(&key));
    wk.trace();
    wk.store.insert(0, b);
    Ok(())
}

fn memory(wk: &mut Wk, i: u64) -> CaseResult {
    let mut b = bench(wk);
    let vm = &mut b.vm;
    reset(vm);
    let h0 = vm.data_space().here();
    let (s, l) = (vm.data_space().start(), vm.data_space().limit());
    let n = (i * 37) as usize % (l - h0 + 1);
    let key = format!("{} allot .memory", n);
    wk.note(&key);
    vm.data_space().set_here(h0 + n).unwrap();
    let before = snap(vm);
    eval(vm, if i % 2 == 0 { ".memory" } else { "c.memory" });
    let o = out(vm);
    let after = snap(vm);
    vm.data_space().set_here(h0).unwrap();
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i));
    let want = format!(
        "data space capacity: {}, used: {}, start: 0x{:X}, limit: 0x{:X}, here: 0x{:X}\n",
        l - s, h0 + n - s, s, l, h0 + n
    );
    if o != want || before != after {
        return fail(key, format!("expected {:?}, got {:?}", want, o));
    }
    wk.store.insert(0, b);
    Ok(())
}

/// dump: rows of eight bytes in hexadecimal and as characters, in every base.
fn dump(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i % 44) as isize - 2;
    let off = (i / 44 % 17) as usize;
    let seed = i / 748 % 33;
    let base = [10, 16, 2, 36][(i / 748 / 33) as usize];
    let mut b = bench(wk);
    let vm = &mut b.vm;
    reset(vm);
    let a = (vm.data_space().here() + 1023 & !15) + off;
    let bytes: Vec<u8> = (0..64).map(|k| (seed * 8 + k) as u8).collect();
    poke(vm, a, &bytes);
    set_base(vm, base);
    let key = format!("free+{} {} dump, bytes from {} on, base {}", off, n, seed * 8 % 256, base);
    wk.note(&key);
    vm.s_stack().push3(5, a as isize, n);
    eval(vm, if i % 2 == 0 { "dump" } else { "cdump" });
    let o = obs(vm);
    let mut want = String::new();
    let mut k = 0;
    while (k as isize) < n {
        want += &format!("{:X}: ", a + k);
        for j in 0..8 {
            want += &format!("{:3X}", bytes[k + j]);
        }
        want += "  ";
        for j in 0..8 {
            let c = bytes[k + j] & 0x7f;
            want.push(if c >= 32 && c < 127 { c as char } else { '_' });
        }
        want += "\n";
        k += 8;
    }
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i));
    let nb = get_base(vm);
    if o.err != 0 || o.s != [5] || o.out != want || nb != base {
        return fail(key, format!("expected {:?}, got {:?} {:?} error {} base {}", want, o.out, o.s, o.err, nb));
    }
    wk.store.insert(0, b);
    Ok(())
}

/// Ways in which a word goes on to the next of a chain: (text, what .backtrace shows of its data).
const LINKS: &[(&str, &str)] = &[
    (": {} 1 drop {next} 2 drop ;", "{}"),
    (": {} dup drop ['] {next} execute noop ;", "{}"),
    (": {} defer-{} noop ;", "{}"),
    (": {} 1 if begin {next} 1 until then ;", "{}"),
    (": {} {next} ;", "{}"),
];

const FAILS: &[(&str, &str, isize)] = &[
    ("1 0 /", "/", -10),
    ("1 0 mod", "mod", -10),
    ("-1 execute", "", -21), // no word of that token to be shown
    ("1 0 /mod", "/mod", -10),
    ("0 5 - @", "@", -9),
    ("5 0 5 - !", "!", -9),
    ("abort", "abort", -1),
    ("max-n allot", "allot", -8),
];

/// Chains of calls as deep as the return stack allows: one kind of link, or two that take turns.
fn deep_chains(wk: &mut Wk, i: u64) -> CaseResult {
    let f = (i % FAILS.len() as u64) as usize;
    let j = i / FAILS.len() as u64;
    let (a, b) = ((j % 5) as usize, (j / 5 % 5) as usize);
    let n = (j / 25) as usize;
    let links: Vec<usize> = (0..n).map(|k| if k % 2 == 0 { a } else { b }).collect();
    // a deferred word is a frame of its own
    let frames = n + links.iter().filter(|l| **l == 2).count();
    if frames > 56 {
        return Ok(());
    }
    backtrace(wk, n, f, links, i)
}

fn backtrace(wk: &mut Wk, n: usize, f: usize, links: Vec<usize>, i: u64) -> CaseResult {
    let (prog, word, code) = FAILS[f];
    let mut vm = wk.take_vm();
    ready(&mut vm, 20000);
    eval(&mut vm, "marker undo-all : quit-it 0stacks reset bye ; variable code : (h) error code ! .backtrace 0error quit-it ;");
    let mut text = format!(": w{} {} noop ;", n, prog);
    let mut key = String::new();
    let mut r = Ok(());
    for k in (0..=n).rev() {
        if k < n {
            let l = LINKS[links[k]];
            if links[k] == 2 {
                text = format!("defer defer-w{} ' w{} ' defer-w{} defer!", k, k + 1, k);
                eval(&mut vm, &text);
            }
            text = l.0.replace("{next}", &format!("w{}", k + 1)).replace("{}", &format!("w{}", k));
        }
        key = format!("{} | {}", text, key);
        eval(&mut vm, &text);
        assert_eq!(err(&vm), 0, "{}", text);
    }
    wk.note(&key);
    eval(&mut vm, "' (h) handler!");
    clear_out(&mut vm);
    let go = vm.find("w0").unwrap();
    let words = vm.wordlist().len();
    vm.execute_word(go);
    vm.run();
    let o = obs(&mut vm);
    wk.trans(n as u64 + 1);
    wk.trace();
    wk.state(H::new().u(i).u(n as u64));
    // The words under way, outermost first; frames of deferred words lie in between; then the one that failed.
    let mut want = vec![];
    for k in 0..=n {
        want.push(format!("w{}", k));
    }
    if !word.is_empty() {
        want.push(word.into());
    }
    let mut shown: Vec<&str> = o.out.split_whitespace().collect();
    let ok = shown.first() == Some(&"backtrace:")
        && {
            shown.retain(|x| {
                *x != "(h)" && !x.starts_with("defer") && !x.starts_with("unknown(") && *x != "backtrace:"
            });
            shown == want
        };
    if !ok || vm.wordlist().len() != words {
        r = fail(key.as_str(), format!("expected {:?}, got {:?}", want, o.out));
    }
    if r.is_ok() {
        reset(&mut vm);
        eval(&mut vm, "code @");
        if vm.s_stack().as_slice() != [code] {
            r = fail(key.as_str(), format!("the handler saw {:?}", vm.s_stack().as_slice().to_vec()));
        }
    }
    if r.is_ok() {
        vm.set_handler(0);
        reset(&mut vm);
        eval(&mut vm, "undo-all");
        wk.put_vm(vm);
    }
    r
}

/// After any history of errors and of ways to go on, .backtrace shows the word that failed last.
fn culprits(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    let ops = digits(i, FAILS.len() as u64 * 3, n);
    let mut b = bench(wk);
    let vm = &mut b.vm;
    reset(vm);
    let tok = |vm: &mut VM, w: &str| {
        let t = vm.find(w).unwrap();
        vm.execute_word(t);
        vm.run();
    };
    let mut key = String::new();
    for o in &ops {
        let (prog, word, code) = FAILS[o / 3];
        let on = ["0error", "0error 1 drop", "reset"][o % 3];
        key += &format!("{} | {} | ", prog, on);
        wk.note(&key);
        clear_out(vm);
        vm.s_stack().reset();
        eval(vm, prog);
        if err(vm) != code {
            return fail(key, format!("error {}, expected {}", err(vm), code));
        }
        for forget in [false, true] {
            if forget {
                tok(vm, if o % 3 == 2 { "reset" } else { "0error" });
                if o % 3 == 1 {
                    eval(vm, "1 drop");
                }
            }
            clear_out(vm);
            tok(vm, ".backtrace");
            let t = out(vm);
            wk.trans(1);
            let shown: Vec<&str> = t.split_whitespace().filter(|x| FAILS.iter().any(|f| f.1 == *x)).collect();
            let want: Vec<&str> = if word == "" || forget && o % 3 == 2 { vec![] } else { vec![word] };
            // once forgotten it may be shown, or nothing
            if shown != want && !(forget && shown.is_empty()) || !t.starts_with("backtrace: ") {
                return fail(key, format!("{} shows {:?}, expected the failing word {:?}", if forget { "after going on, .backtrace" } else { ".backtrace" }, t, want));
            }
        }
    }
    wk.state(H::new().u(i).u(n as u64));
    wk.trace();
    wk.store.insert(0, b);
    Ok(())
}

/// .backtrace in any history of definitions, markers and errors in the words they forget.
fn forgotten(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    const OPS: &[(&str, &str, isize)] = &[
        ("marker m", "", 0),
        ("m", "", 0),
        ("m nosuch", "", -13),
        ("m 1 0 /", "/", -10),
        (": w 1 0 / ;", "", 0),
        ("w", "/", -10),
        ("w drop", "/", -10),
        ("create v nosuch", "", -13),
        (": w -5 @ ;", "", 0),
        (": q nosuch ;", "", -13),
    ];
    let ops = digits(i, OPS.len() as u64, n);
    let mut vm = wk.take_vm();
    ready(&mut vm, 20000);
    eval(&mut vm, "marker undo-all : m ; : w ;");
    let mut key = String::new();
    for o in &ops {
        let (text, _, _) = OPS[*o];
        key += text;
        key += " | ";
        wk.note(&key);
        clear_out(&mut vm);
        eval(&mut vm, text);
        let e = err(&vm);
        if e == -10 && !text.starts_with("m ") && !text.starts_with("w") || e > 0 {
            return fail(key, format!("error {}", e));
        }
        for k in 0..2 {
            clear_out(&mut vm);
            let t = vm.find(".backtrace").unwrap();
            vm.execute_word(t);
            let got = out(&mut vm);
            wk.trans(1);
            // every word it shows is one that there is, and the failing one is among them
            let mut shown = got.split_whitespace();
            if shown.next() != Some("backtrace:") {
                return fail(key, format!(".backtrace shows {:?}", got));
            }
            let shown: Vec<&str> = shown.collect();
            if let Some(x) = shown.iter().find(|x| !x.starts_with("unknown(") && vm.find(x).is_none()) {
                return fail(key, format!(".backtrace shows {:?}, which has been forgotten: {:?}", x, got));
            }
            let want = match e {
                -10 => "/",
                -9 => "@",
                _ => "",
            };
            if k == 0 && want != "" && !shown.contains(&want) {
                return fail(key, format!(".backtrace shows {:?}, not {:?}", got, want));
            }
            if e != 0 {
                let t = vm.find("0error").unwrap();
                vm.execute_word(t);
            }
        }
        recover(&mut vm);
        reset(&mut vm);
    }
    wk.state(H::new().u(i).u(n as u64));
    wk.trace();
    eval(&mut vm, "undo-all");
    if err(&vm) == 0 {
        wk.put_vm(vm);
    }
    Ok(())
}

/// Errors and what .error and error show of them.
const ERRORS: &[(&str, isize, &str)] = &[
    ("abort", -1, "Aborted"),
    (": t 70 0 do i loop ; t", -3, "Stack overflow"),
    (": t drop drop drop drop ?stacks ; t", -4, "Stack underflow"),
    (": t 1 >r 1 >r 1 >r 1 >r 1 >r 1 >r 1 >r 1 >r ?stacks recurse ; t", -5, "Return stack overflow"),
    ("max-n allot", -8, "Dictionary overflow"),
    ("-5 @", -9, "Invalid memory address"),
    ("1 0 /", -10, "Division by zero"),
    ("nosuch", -13, "Undefined word"),
    ("if", -14, "Interpreting a compile only word"),
    ("-1 execute", -21, "Unsupported operation"),
    (": t then ;", -22, "Control structure mismatch"),
    (": t 70 0 do i s>f loop ; t", -44, "Floating point stack overflow"),
    (": t fdrop fdrop fdrop ?stacks ; t", -45, "Floating point stack underflow"),
    (":", -39, "Unexpected end of file"),
    ("noop", 0, ""),
];

fn errors(wk: &mut Wk, i: u64) -> CaseResult {
    let (text, code, descr) = ERRORS[(i % ERRORS.len() as u64) as usize];
    let junk = ["", "1 2 3 ", "1e 2e ", "1 .\" x\" "][(i / ERRORS.len() as u64) as usize];
    if !junk.is_empty() && (code == -4 || code == -45) {
        return Ok(());
    }
    let mut vm = new_vm();
    reset(&mut vm);
    let key = format!("{}{}", junk, text);
    wk.note(&key);
    eval(&mut vm, &(junk.replace(".\" x\"", "") + text));
    let e = err(&vm);
    if e != code {
        return fail(key, format!("expected error {}, got {}", code, e));
    }
    // what an application's loop does: show the error, then forget it
    clear_out(&mut vm);
    vm.s_stack().reset();
    let dot = vm.find(".error").unwrap();
    vm.execute_word(dot);
    let er = vm.find("error").unwrap();
    vm.execute_word(er);
    let o = obs(&mut vm);
    wk.trans(3);
    if o.out != descr || o.s != [code] || o.err != code {
        return fail(key, format!("expected {:?} and {}, got {:?} and {:?}", descr, code, o.out, o.s));
    }
    let zero = vm.find("0error").unwrap();
    vm.execute_word(zero);
    clear_out(&mut vm);
    vm.s_stack().reset();
    vm.execute_word(dot);
    vm.execute_word(er);
    let o = obs(&mut vm);
    if o.out != "" || o.s != [0] || o.err != 0 {
        return fail(key, format!("after 0error: {:?} {:?} {}", o.out, o.s, o.err));
    }
    wk.state(H::new().u(i));
    wk.trace();
    Ok(())
}

/// The messages of the errors of Forth 2012, by the names the library gives them.
const MESSAGES: &[(exception::Exception, isize, &str)] = &[
    (exception::ABORT, -1, "Aborted"),
    (exception::ABORT_QUOTE, -2, "Aborted"),
    (exception::STACK_OVERFLOW, -3, "Stack overflow"),
    (exception::STACK_UNDERFLOW, -4, "Stack underflow"),
    (exception::RETURN_STACK_OVERFLOW, -5, "Return stack overflow"),
    (exception::RETURN_STACK_UNDERFLOW, -6, "Return stack underflow"),
    (exception::DO_LOOP_NESTED_TOO_DEEPLY, -7, "Do-loop nested too deeply"),
    (exception::DICTIONARY_OVERFLOW, -8, "Dictionary overflow"),
    (exception::INVALID_MEMORY_ADDRESS, -9, "Invalid memory address"),
    (exception::DIVISION_BY_ZERO, -10, "Division by zero"),
    (exception::RESULT_OUT_OF_RANGE, -11, "Result out of range"),
    (exception::ARGUMENT_TYPE_MISMATCH, -12, "Argument type mismatch"),
    (exception::UNDEFINED_WORD, -13, "Undefined word"),
    (exception::INTERPRETING_A_COMPILE_ONLY_WORD, -14, "Interpreting a compile only word"),
    (exception::INVALID_FORGET, -15, "Invalid FORGET"),
    (exception::ATTEMPT_TO_USE_ZERO_LENGTH_STRING, -16, "Attempt to use zero length string"),
    (exception::PICTURED_NUMERIC_OUTPUT_STRING_OVERFLOW, -17, "Picture numeric output string overflow"),
    (exception::PARSED_STRING_OVERFLOW, -18, "Parsed string overflow"),
    (exception::DEFINITION_NAME_TOO_LONG, -19, "Definition name too long"),
    (exception::WRITE_TO_A_READ_ONLY_LOCATION, -20, "Write to a read only location"),
    (exception::UNSUPPORTED_OPERATION, -21, "Unsupported operation"),
    (exception::CONTROL_STRUCTURE_MISMATCH, -22, "Control structure mismatch"),
    (exception::ADDRESS_ALIGNMENT_EXCEPTION, -23, "Address alignment exception"),
    (exception::INVALID_NUMERIC_ARGUMENT, -24, "Invalid numeric argument"),
    (exception::RETURN_STACK_IMBALANCE, -25, "Return stack imbalance"),
    (exception::LOOP_PARAMETERS_UNAVAILABLE, -26, "Loop parameters unavailable"),
    (exception::INVALID_RECURSION, -27, "Invalid recursion"),
    (exception::USER_INTERRUPT, -28, "User interrupt"),
    (exception::COMPILER_NESTING, -29, "Compiler nesting"),
    (exception::OBSOLESCENT_FEATURE, -30, "Obsolescent feature"),
    (exception::TO_BODY_USED_ON_NON_CREATED_DEFINITION, -31, ">BODY used on non-CREATEd definition"),
    (exception::INVALID_NAME_ARGUMENT, -32, "Invalid name argument"),
    (exception::BLOCK_READ_EXCEPTION, -33, "Block read exception"),
    (exception::BLOCK_WRITE_EXCEPTION, -34, "Block write exception"),
    (exception::INVALID_BLOCK_NUMBER, -35, "Invalid block number"),
    (exception::INVALID_FILE_POSITION, -36, "Invalid file position"),
    (exception::FILE_IO_EXCEPTION, -37, "File I/O exception"),
    (exception::NON_EXISTENT_FILE, -38, "Non-existent file"),
    (exception::UNEXPECTED_END_OF_FILE, -39, "Unexpected end of file"),
    (exception::INVALID_BASE_FOR_FLOATING_POINT_CONVERSION, -40, "Invalid BASE for floating point conversion"),
    (exception::LOSS_OF_PRECISION, -41, "Loss of precision"),
    (exception::FLOATING_POINT_DIVIDED_BY_ZERO, -42, "Floating point divided by zero"),
    (exception::FLOATING_POINT_RESULT_OUT_OF_RANGE, -43, "Floating point result out of range"),
    (exception::FLOATING_POINT_STACK_OVERFLOW, -44, "Floating point stack overflow"),
    (exception::FLOATING_POINT_STACK_UNDERFLOW, -45, "Floating point stack underflow"),
    (exception::FLOATING_POINT_INVALID_ARGUMENT, -46, "Floating point invalid argument"),
    (exception::COMPILATION_WORD_LIST_DELETED, -47, "Compilation word list deleted"),
    (exception::INVALID_POSTPONE, -48, "Invalid POSTPONE"),
    (exception::SEARCH_ORDER_OVERFLOW, -49, "Search order overflow"),
    (exception::SEARCH_ORDER_UNDERFLOW, -50, "Search order underflow"),
    (exception::COMPILATION_WORD_LIST_CHANGED, -51, "Compilation word list changed"),
    (exception::CONTROL_FLOW_STACK_OVERFLOW, -52, "Control flow stack overflow"),
    (exception::EXCEPTION_STACK_OVERFLOW, -53, "Exception stack overflow"),
    (exception::FLOATING_POINT_UNDERFLOW, -54, "Floating point underflow"),
    (exception::FLOATING_POINT_UNIDENTIFIED_FAULT, -55, "Floating point unidentified fault"),
    (exception::QUIT, -56, "QUIT"),
    (exception::EXCEPTION_IN_SENDING_OR_RECEIVING_A_CHARACTER, -57, "Exception in sending or receiving a character"),
    (exception::BRACKET_IF_ELSE_OR_THEN_EXCEPTION, -58, "[IF],[ELSE],[THEN] exception"),
];

fn messages(wk: &mut Wk, i: u64) -> CaseResult {
    let (e, code, descr) = MESSAGES[(i % MESSAGES.len() as u64) as usize];
    let mut vm = new_vm();
    reset(&mut vm);
    let key = format!("error {}", code);
    wk.note(&key);
    let (a, b) = (vm.find(".error").unwrap(), vm.find("error").unwrap());
    if i >= MESSAGES.len() as u64 {
        vm.abort_with(e);
    } else {
        vm.set_error(Some(e));
    }
    vm.execute_word(a);
    vm.execute_word(b);
    wk.trans(2);
    wk.trace();
    wk.state(H::new().u(i));
    let o = obs(&mut vm);
    if !o.out.ends_with(descr) || o.out.len() > descr.len() + if i < MESSAGES.len() as u64 { 0 } else { 40 } || o.s != [code] || o.err != code {
        return fail(key, format!("expected {:?} and {}, got {:?} and {:?}", descr, code, o.out, o.s));
    }
    Ok(())
}

/// .token shows the word read last, .input the text being interpreted.
const CH: &[char] = &['a', 'Z', '0', '-', '"', '\\', '(', '\u{e9}', '\u{4e2d}'];

fn tokens(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    let tok: String = digits(i / 3, CH.len() as u64, n).iter().map(|k| CH[*k]).collect();
    let mode = i % 3;
    let mut b = bench(wk);
    let vm = &mut b.vm;
    reset(vm);
    let key = format!("{:?}, {}", tok, ["parse-word .token", "undefined", ".input"][mode as usize]);
    wk.note(&key);
    let mut known = false;
    let (text, want) = match mode {
        0 => (format!("parse-word {} .token", tok), ".token".to_string()),
        1 => {
            known = vm.find(&tok.to_ascii_lowercase()).is_some() || tok.parse::<isize>().is_ok();
            (format!("1 drop  {} 5 6", tok), tok.clone())
        }
        _ => {
            let t = format!("  .input  parse-word {} ", tok);
            (t.clone(), t)
        }
    };
    if known {
        wk.store.insert(0, b);
        return Ok(());
    }
    eval(vm, &text);
    if mode == 1 {
        let e = err(vm);
        if e != -13 {
            wk.store.insert(0, b);
            return Ok(()); // a literal of some base; see C13
        }
        clear_out(vm);
        let w = vm.find(".token").unwrap();
        vm.execute_word(w);
    }
    let o = obs(vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().s(&key));
    let got = o.out.clone();
    if got != want || (mode != 1 && o.err != 0) {
        return fail(key, format!("expected {:?}, got {:?} error {}", want, got, o.err));
    }
    wk.store.insert(0, b);
    Ok(())
}

/// Long dumps.
fn long_dump(wk: &mut Wk, i: u64) -> CaseResult {
    let n = if i < 600 { i as usize } else { (i as usize - 600) * 61 };
    let mut vm = wk.take_vm();
    reset(&mut vm);
    let a = vm.data_space().here() + 1023 & !15;
    let bytes: Vec<u8> = (0..n + 8).map(|k| (k * 7 + k / 256) as u8).collect();
    let key = format!("{} bytes dump", n);
    wk.note(&key);
    poke(&mut vm, a, &bytes);
    vm.s_stack().push3(5, a as isize, n as isize);
    eval(&mut vm, "dump");
    let o = obs(&mut vm);
    let mut want = String::new();
    for k in (0..n).step_by(8) {
        want += &format!("{:X}: ", a + k);
        for j in 0..8 {
            want += &format!("{:3X}", bytes[k + j]);
        }
        want += "  ";
        for j in 0..8 {
            let c = bytes[k + j] & 0x7f;
            want.push(if c >= 32 && c < 127 { c as char } else { '_' });
        }
        want += "\n";
    }
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i + 6_000_000));
    if o.err != 0 || o.s != [5] || o.out != want {
        return fail(key, format!("got {:?} error {}, {} bytes of output for {}", o.s, o.err, o.out.len(), want.len()));
    }
    wk.put_vm(vm);
    Ok(())
}

/// Cells around every power of two and floating point numbers of every size, in .s .
fn shown(wk: &mut Wk, i: u64) -> CaseResult {
    let k = i % 64;
    let d = (i / 64 % 5) as isize - 2;
    let v = (1isize << k).wrapping_add(d);
    let v = if i / 320 % 2 == 0 { v } else { v.wrapping_neg() };
    let base = [10, 16][(i / 640 % 2) as usize];
    let e = (i / 1280) as i32 * 8 - 40;
    dot_s(wk, vec![7, v, v ^ 1], vec![1.0 + d as f64, 1.375 * 2f64.powi(e + k as i32 / 8) * if v < 0 { -1.0 } else { 1.0 }], false, base)
}

/// .token and .input of long texts.
fn long_tokens(wk: &mut Wk, i: u64) -> CaseResult {
    let k = i / 3;
    let n = if k < 700 { k as usize + 1 } else { (1usize << (10 + (k - 700) / 5)) + (k as usize - 700) % 5 - 2 };
    let mode = i % 3;
    let mut b = bench(wk);
    let vm = &mut b.vm;
    reset(vm);
    let tok: String = (0..n).map(|j| if j % 9 == 8 { '?' } else { (b'k' + (j % 13) as u8) as char }).collect();
    let key = format!("{} characters, {}", n, ["parse-word .token", "undefined", ".input"][mode as usize]);
    wk.note(&key);
    let (text, want) = match mode {
        0 | 1 => (format!("1 drop  {} 5 6", tok), tok.clone()),
        _ => {
            let t = format!("  .input  parse-word {} ", tok);
            (t.clone(), t)
        }
    };
    eval(vm, &text);
    let e = err(vm);
    if mode != 2 {
        clear_out(vm);
        let w = vm.find(".token").unwrap();
        vm.execute_word(w);
    }
    let o = out(vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().s(&key));
    if o != want || e != if mode == 2 { 0 } else { -13 } {
        return fail(key, format!("error {}, {} bytes shown of {}", e, o.len(), want.len()));
    }
    wk.store.insert(0, b);
    Ok(())
}

/// words after many definitions of names of many lengths.
fn many_words(wk: &mut Wk, i: u64) -> CaseResult {
    let n = i as usize * 16;
    let mut vm = new_vm();
    reset(&mut vm);
    eval(&mut vm, "words");
    let old = out(&mut vm);
    clear_out(&mut vm);
    let mut want = old;
    let key = format!("words after {} definitions", n);
    wk.note(&key);
    for k in 0..n {
        let name = format!("{}{}", "w".repeat(1 + k % 90), k);
        eval(&mut vm, &format!("{} {}{}", [":", "create", "5 constant", "variable"][k % 4], name, if k % 4 == 0 { " ;" } else { "" }));
        if err(&vm) != 0 {
            return fail(key, format!("error {} at {}", err(&vm), k));
        }
        want = format!("{} {}", name, want);
    }
    clear_out(&mut vm);
    eval(&mut vm, "words");
    let got = out(&mut vm);
    wk.trans(n as u64);
    wk.trace();
    wk.state(H::new().u(i + 8_000_000));
    if got != want {
        return fail(key, format!("{} words shown of {}", got.split(' ').count(), want.split(' ').count()));
    }
    Ok(())
}

fn limits(wk: &mut Wk, i: u64) -> CaseResult {
    let d = (i % 60) as usize;
    let (w, want) = [("max-n", isize::MAX), ("max-u", -1), ("depth", d as isize), ("true", -1), ("false", 0), ("bl", 32)][(i / 60) as usize];
    let mut b = bench(wk);
    let vm = &mut b.vm;
    reset(vm);
    let mut exp = vec![];
    for k in 0..d {
        vm.s_stack().push(k as isize);
        exp.push(k as isize);
    }
    exp.push(want);
    let key = format!("{} on a stack of {}", w, d);
    wk.note(&key);
    eval(vm, w);
    let o = obs(vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i));
    if o.err != 0 || o.s != exp || !o.out.is_empty() {
        return fail(key, format!("got {:?} error {}", o.s, o.err));
    }
    wk.store.insert(0, b);
    Ok(())
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![
        Scope::new(".s: every stack of up to 4 cells and 3 floats of 6 and 5 values", 40 * 1296 * 125, 4096, small),
        Scope::new(".s: every depth of both stacks in 4 bases", 4225 * 4, 64, deep),
        Scope::new(".word for every token", 708, 8, dot_word),
        Scope::new(".memory at many places of the free space", 2000, 16, memory),
        Scope::new("dump: every length up to 41, place, byte and base", 748 * 33 * 4, 64, dump),
        Scope::new(".error and error for every reported error", 60, 2, errors),
        Scope::new(".error and error for every exception there is, set and aborted with", 2 * MESSAGES.len() as u64, 2, messages),
        Scope::new("constants and depth at every depth", 360, 8, limits),
        Scope::new(".backtrace of chains of up to 55 calls", FAILS.len() as u64 * 25 * 56, 8, deep_chains),
        Scope::new("dumps of every length up to 599 and of 36,600 bytes", 1200, 16, long_dump),
        Scope::new(".s: cells around every power of two, floating point numbers of many sizes", 1280 * 12, 64, shown),
        Scope::new(".token and .input of every length up to 700 and about powers of two up to 2^15", 3 * 730, 16, long_tokens),
        Scope::new("words after up to 800 definitions", 51, 1, many_words),
    ];
    for n in 1..=(if t { 5 } else { 4 }) {
        scopes.push(Scope::new(&format!("words after all histories of {} definitions", n), 12u64.pow(n as u32), 64, move |wk, i| {
            words_hist(wk, n, i)
        }));
    }
    for n in 0..=(if t { 6 } else { 4 }) {
        scopes.push(Scope::new(
            &format!(".backtrace of all chains of {} calls", n),
            FAILS.len() as u64 * (LINKS.len() as u64).pow(n as u32),
            8,
            move |wk, i| {
                let k = FAILS.len() as u64;
                backtrace(wk, n, (i % k) as usize, digits(i / k, LINKS.len() as u64, n), i)
            },
        ));
    }
    for n in 1..=(if t { 4 } else { 3 }) {
        scopes.push(Scope::new(
            &format!(".backtrace after all histories of {} errors and ways to go on", n),
            (FAILS.len() as u64 * 3).pow(n as u32),
            16,
            move |wk, i| culprits(wk, n, i),
        ));
    }
    for n in 1..=(if t { 6 } else { 4 }) {
        scopes.push(Scope::new(
            &format!(".backtrace after all histories of {} definitions, markers and errors", n),
            10u64.pow(n as u32),
            32,
            move |wk, i| forgotten(wk, n, i),
        ));
    }
    for n in 1..=(if t { 5 } else { 4 }) {
        scopes.push(Scope::new(&format!(".token and .input, every token of {} characters", n), 3 * (CH.len() as u64).pow(n as u32), 64, move |wk, i| {
            tokens(wk, n, i)
        }));
    }
    Property {
        id: "C26",
        assumptions: vec![
            "frames of deferred words, data on the return stack and the handler itself may appear in a backtrace among the words under way".into(),
        ],
        scopes,
    }
}
