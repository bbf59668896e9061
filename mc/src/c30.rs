//! C30: no line of text brings the host down, and after every line the machine can be used.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;
use rtforth::units::Units;

/// Left out everywhere: run-time words of compiled code and words that run a token or a task that the
/// operands happen to name; words that wait; file names (C21).
const OUT: &[&str] = &[
    "_does", "_postpone", "_+loop", "_loop", "_qdo", "_do", "0branch", "branch", "_s\"", "flit", "lit", "execute", "compile,", "nod", "stop", "halt", "get",
    "ms", "pause", "activate", "suspend", "resume", "handler!", "_dump", "_type", "(xtime)", "xtime", "source-idx!", "restore-input", "_restore-input", "interpret-token", "compile-token", "create-file", "delete-file", "open-file", "included", "defer!",
];
/// Left out of definitions: words of the return stack, and loops without end.
const OUT_COMPILED: &[&str] = &[
    ">r", "r>", "2>r", "2r>", "unloop", "leave", "recurse", "again", "until", "repeat", "loop", "+loop", "goto", "call", "label", "evaluate-input", "does>",
];
/// What lines of three words are made of.
const TRIPLES: &[&str] = &[
    ":", ";", "[", "]", "'", "[']", "if", "else", "then", "begin", "while", "case", "of", "endof", "endcase", "do", "?do", "i", "j", "exit", "postpone", "literal", "immediate", "create", "constant", "variable",
    "marker", "does>", "abort", "abort\"", "quit", "evaluate", "source", "parse-name", "parse-word", "parse", "(", "\\", "char", "[char]", ".s", "words", "see", "drop", "dup", "depth", "fdrop", "1", "-1", "nosuch", "here", "allot", "unused",
    "s\"", ".\"", "c\"", "2.5e", ">in", "recurse", "defer", "is", "catch", "throw", "refill", "0labels", "label", "goto", "/mod", "c,", ",", "align",
];
/// Words that store, wherever the operands say.
const STORES: &[&str] = &[
    "!", "c!", "2!", "!token", "+!", "f!", "on", "off", "fill", "move", "append", "hex", "decimal", "base", "read-file", "release", "h.", "h.r", "word", "dump",
    "save-source", "restore-source", "include", "load-source-file", "-work", "marker", "immediate", "compile-only", ":", "constant", "create", "0labels",
];

/// Defining words, which may redefine what is asked afterwards, and others after which words differ.
const DEFINE: &[&str] = &[":", "create", "constant", "variable", "marker", "fconstant", "2constant", "fvariable", "2variable", "defer", "+field"];
const LOSE: &[&str] = &[
    ":", "create", "constant", "variable", "marker", "fconstant", "2constant", "fvariable", "2variable", "defer", "+field", "-work", "immediate", "compile-only",
];

fn vocabulary(vm: &mut VM) -> Vec<String> {
    eval(vm, "words");
    let t = out(vm);
    clear_out(vm);
    let mut v: Vec<String> = t.split_whitespace().map(|s| s.to_string()).filter(|s| !OUT.contains(&s.as_str())).collect();
    v.extend(["1", "-1", "0", "2.5e", "nosuch", "'x'", "$", "1e999", "chk0", "(", "\u{4e2d}"].iter().map(|s| s.to_string()));
    v.sort();
    v.dedup();
    v
}

struct Seen {
    words: usize,
    here: usize,
    mem: Vec<u8>,
}

fn machine(wk: &mut Wk) -> VM {
    let mut vm = wk.take_vm();
    let fresh = match wk.store.get(&30) {
        None => true,
        Some(b) => {
            let s = b.downcast_ref::<Seen>().unwrap();
            let h = vm.data_space().here();
            let st = vm.data_space().start();
            // system variables (base) are set by reset
            vm.wordlist().len() != s.words || h != s.here || mem(&mut vm)[16..h - st] != s.mem[16..]
        }
    };
    if fresh {
        vm = new_vm();
        reset(&mut vm);
        eval(&mut vm, "variable buf 120 allot  : chk0 7 ;");
        let h = vm.data_space().here();
        let st = vm.data_space().start();
        let m = mem(&mut vm)[..h - st].to_vec();
        let s = Seen { words: vm.wordlist().len(), here: h, mem: m };
        wk.store.insert(30, Box::new(s));
    }
    reset(&mut vm);
    while !vm.files().is_empty() {
        vm.files_mut().pop();
    }
    while !vm.sources().is_empty() {
        vm.sources_mut().pop();
        vm.lines_mut().pop();
    }
    vm
}

fn stack(vm: &mut VM, k: usize) -> &'static str {
    let b = vm.data_space().here() as isize - 120;
    let name = ["empty", "1", "address and 5", "two addresses and 8", "-1 and 0", "small numbers", "300 and 2", "token"][k];
    let w = vm.find("chk0").unwrap_or(0) as isize;
    let v: Vec<isize> = match k {
        0 => vec![],
        1 => vec![1],
        2 => vec![b, 5],
        3 => vec![b, b + 24, 8],
        4 => vec![-1, 0],
        5 => vec![4, 3, 2, 1],
        6 => vec![300, 2],
        _ => vec![b, w],
    };
    if k > 0 {
        for x in 2..9 {
            vm.s_stack().push(x);
        }
    }
    for x in v {
        vm.s_stack().push(x);
    }
    for x in [1.5, 2.5, 3.5, 0.5, f64::NAN, -1e300].iter().take(k % 4 * 2) {
        vm.f_stack().push(*x);
    }
    name
}

/// Words that do something as often as a cell says: not with what is found below the stack.
const COUNTED: &[&str] = &["spaces", ".r", "h.r", "f.r", "fill", "dump", "do", "?do", "resize-file"];

fn line(wk: &mut Wk, words: &[&str], compiled: bool, k: usize) -> CaseResult {
    if [0, 2, 3, 7].contains(&k) && COUNTED.contains(&words[0]) || words[1..].iter().any(|w| COUNTED.contains(w)) {
        return Ok(());
    }
    let w = words.join(" ");
    let text = if compiled { format!(": t {} ; t", w) } else { w };
    let mut vm = machine(wk);
    let name = stack(&mut vm, k);
    let key = format!("{:?} with stack: {}", text, name);
    wk.note(&key);
    eval(&mut vm, &text);
    let e = err(&vm);
    wk.trans(1);
    wk.state(H::new().s(&text).i(e).u(k as u64));
    if e > 0 || e < -58 {
        return fail(key, format!("error {}", e));
    }
    // what was there is still there
    let stores = words.iter().any(|w| STORES.contains(w)) || words.len() > 2 && words.contains(&"allot");
    if !stores && !compiled {
        let s = wk.store[&30].downcast_ref::<Seen>().unwrap();
        let st = vm.data_space().start();
        let m = mem(&mut vm);
        if let Some(a) = (16..s.here - st).find(|a| m[*a] != s.mem[*a]) {
            return fail(key, format!("byte {} of the data space, below the free space, was changed", a));
        }
    }
    // and the machine works, unless what it is asked has been redefined or lost
    recover(&mut vm);
    let lost = stores || words.iter().any(|w| LOSE.contains(w));
    if lost {
        reset(&mut vm);
        eval(&mut vm, "2 3");
        let o = obs(&mut vm);
        if o.err != 0 || !o.s.ends_with(&[2, 3]) && !words.iter().any(|w| DEFINE.contains(w)) {
            return fail(key, format!("afterwards: {:?}", o));
        }
    } else {
        reset(&mut vm);
        eval(&mut vm, "marker m0 : chk1 2 3 4 rot drop 5 0 do i dup 3 = if drop leave then . loop s\" ab\" type 1.5e f. [char] c emit ; chk1 chk1 .s m0");
        let o = obs(&mut vm);
        if o.err != 0 || o.s != [3, 4, 3, 4] || o.compiling || !o.out.ends_with("0 1 2 ab1.5000000 c0 1 2 ab1.5000000 c3 4 3 4 ") {
            return fail(key, format!("afterwards: {:?}", o));
        }
    }
    wk.put_vm(vm);
    Ok(())
}

pub fn property(t: bool) -> Property {
    let mut vm = new_vm();
    reset(&mut vm);
    let v = vocabulary(&mut vm);
    drop(vm);
    let mut scopes = vec![];
    for c in [false, true] {
        let v: Vec<String> = v.iter().filter(|w| !c || !OUT_COMPILED.contains(&w.as_str())).cloned().collect();
        let m = v.len() as u64;
        let v1 = v.clone();
        let how = if c { "compiled" } else { "interpreted" };
        scopes.push(Scope::new(&format!("every word, {}", how), m * 8, 64, move |wk, i| line(wk, &[&v1[(i / 8) as usize]], c, (i % 8) as usize)));
        scopes.push(Scope::new(&format!("every pair of words, {}", how), m * m * 8, 512, move |wk, i| {
            let j = i / 8;
            line(wk, &[&v[(j / m) as usize], &v[(j % m) as usize]], c, (i % 8) as usize)
        }));
    }
    if t {
        // Words that change what the following ones find: the stacks, the parser, the definition under way.
        let pick: Vec<String> = v.iter().filter(|w| TRIPLES.contains(&w.as_str())).cloned().collect();
        let m = pick.len() as u64;
        for c in [false, true] {
            let v1 = pick.clone();
            let how = if c { "compiled" } else { "interpreted" };
            scopes.push(Scope::new(&format!("every three of {} words, {}", m, how), m * m * m * 8, 512, move |wk, i| {
                let j = i / 8;
                let w = [&v1[(j / m / m) as usize][..], &v1[(j / m % m) as usize][..], &v1[(j % m) as usize][..]];
                if c && w.iter().any(|w| OUT_COMPILED.contains(w)) {
                    return Ok(());
                }
                line(wk, &w, c, (i % 8) as usize)
            }));
        }
    }
    Property {
        id: "C30",
        assumptions: vec![
            "run-time words of compiled code, words that run a token or a task the operands name, words that wait and words of file names are left out; so are, in definitions, words of the return stack and loops without end; storing and counted words are left out where the operand would be an arbitrary cell".to_string(),
        ],
        scopes,
    }
}
