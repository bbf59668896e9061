//! C12: source text is split into words, comments and strings the same way for every text.
use crate::engine::*;
use crate::vmx::*;
use rtforth::memory::Memory;
use rtforth::core::Core;

const A1: &[&str] = &[" ", "x", "(", ")", "\\", "\n", "\t", "\r", "é"];
const A2: &[&str] = &["a", " ", "(", "\\", "\n", "é", "\t", ")"];

fn text(alpha: &[&str], n: usize, i: u64) -> String {
    digits(i, alpha.len() as u64, n).iter().map(|k| alpha[*k]).collect()
}

fn is_ws(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\n' || c == '\r'
}

#[derive(Debug, PartialEq)]
enum End {
    Done,
    /// the first word that is not defined
    Undefined(String),
}

/// Reference scanner: calls `f` for every word outside comments; f returns false for an
/// unknown word.  Returns how it ended and the number of words seen.
fn scan(s: &str, f: &mut dyn FnMut(&str) -> bool) -> End {
    let c: Vec<char> = s.chars().collect();
    let mut p = 0;
    loop {
        while p < c.len() && is_ws(c[p]) {
            p += 1;
        }
        let st = p;
        while p < c.len() && !is_ws(c[p]) {
            p += 1;
        }
        if st == p {
            return End::Done;
        }
        let w: String = c[st..p].iter().collect();
        match w.as_str() {
            "(" => {
                while p < c.len() && c[p] != ')' {
                    p += 1;
                }
                p += 1;
            }
            "\\" => {
                while p < c.len() && c[p] != '\n' {
                    p += 1;
                }
                p += 1;
            }
            w => {
                if !f(w) {
                    return End::Undefined(w.to_string());
                }
            }
        }
        if p > c.len() {
            p = c.len();
        }
    }
}

fn machine(wk: &mut Wk) -> VM {
    let mut vm = wk.take_vm();
    if !wk.store.contains_key(&0) || room(&mut vm) < 7000 {
        vm = new_vm();
        reset(&mut vm);
        eval(&mut vm, ": x 7 ; : xx 8 ; : p-t parse .token ; : pw-t parse-word .token ;");
        wk.store.insert(0, Box::new(()));
    }
    reset(&mut vm);
    vm
}

fn tok(vm: &mut VM) -> String {
    vm.last_token().clone().unwrap_or_default()
}

/// Interpret a text, or compile it into a word.
fn scanning(wk: &mut Wk, n: usize, compiled: bool, i: u64) -> CaseResult {
    let s = text(A1, n, i);
    let mut want: Vec<isize> = vec![];
    let mut ended = false; // the definition was ended by its semicolon
    let src = if compiled { format!(": w {}\n;", s) } else { s.clone() };
    let mut other = false; // \\ (skip the rest of the file) is another word
    let mut first = 0;
    let end = scan(&src, &mut |w| match w {
        "\\\\" => {
            other = true;
            false
        }
        ":" => true,
        "w" => {
            first += 1;
            true
        }
        "x" => {
            want.push(7);
            true
        }
        "xx" => {
            want.push(8);
            true
        }
        ";" => {
            ended = true;
            true
        }
        _ => false,
    });
    if other {
        return Ok(());
    }
    let mut vm = machine(wk);
    wk.note(&format!("{:?}", src));
    eval(&mut vm, &src);
    let o = obs(&mut vm);
    wk.trans(n as u64 + 1);
    wk.trace();
    wk.state(H::new().u(compiled as u64).u(n as u64).u(i));
    let key = format!("{:?}", src);
    match end {
        End::Undefined(w) => {
            if o.err != -13 || tok(&mut vm) != w {
                return fail(key, format!("expected undefined word {:?}, got error {} at {:?}", w, o.err, tok(&mut vm)));
            }
        }
        End::Done => {
            if o.err != 0 {
                return fail(key, format!("error {} at {:?}", o.err, tok(&mut vm)));
            }
            if !compiled {
                if o.s != want {
                    return fail(key, format!("expected {:?}, got {:?}", want, o.s));
                }
            } else {
                if o.compiling == ended {
                    return fail(key, format!("still compiling: {}, expected {}", o.compiling, !ended));
                }
                if ended {
                    eval(&mut vm, "w");
                    let o = obs(&mut vm);
                    if o.err != 0 || o.s != want {
                        return fail(key, format!("compiled, expected {:?}, got {:?} error {}", want, o.s, o.err));
                    }
                } else {
                    // an unclosed comment swallowed the rest; the next line goes on
                    eval(&mut vm, "x ; w");
                    want.push(7);
                    let o = obs(&mut vm);
                    if o.err != 0 || o.s != want {
                        return fail(key, format!("continued, expected {:?}, got {:?} error {}", want, o.s, o.err));
                    }
                }
            }
        }
    }
    wk.put_vm(vm);
    Ok(())
}

/// s" ." .( char parse and word on every text.
fn strings(wk: &mut Wk, n: usize, form: usize, i: u64) -> CaseResult {
    let s = text(A2, n, i);
    let mut vm = machine(wk);
    let (src, run, out_w, st): (String, &str, String, Vec<isize>) = match form {
        0 => (format!(": w 1 s\" {}\" 2 ; ", s), "w -rot type", s.clone(), vec![1, 2]),
        1 => (format!(": w 1 .\" {}\" 2 ;", s), "w", s.clone(), vec![1, 2]),
        2 => (format!(": w 1 s\" {}", s), "2 ; w rot type", s.clone(), vec![1, 2]),
        3 => {
            // several strings in one word
            (format!(": w s\" {0}\" .\" {0}\" s\" <{0}>\" ; ", s), "w 2swap type type", format!("{0}{0}<{0}>", s), vec![])
        }
        4 => {
            // word: skips leading delimiters, leaves a counted string
            let d = 'a' as isize;
            let t = s.trim_start_matches('a');
            let t = t.split('a').next().unwrap().to_string();
            let _ = d;
            // the text starts right after the delimiter of the name
            (String::new(), "", t, vec![])
        }
        _ => {
            let t = s.split(')').next().unwrap().to_string();
            (String::new(), "", t, vec![])
        }
    };
    let key;
    match form {
        4 => {
            let full = format!("'a' word{}", s);
            // the name must be delimited by white space, and the text goes on from there
            if !s.starts_with(|c| is_ws(c)) || s.contains("\\\\") {
                wk.put_vm(vm);
                return Ok(());
            }
            key = format!("{:?}", full);
            wk.note(&key);
            eval(&mut vm, &full);
            let st = vm.s_stack().as_slice().to_vec();
            if err(&vm) != 0 && err(&vm) != -13 {
                return fail(key, format!("error {}", err(&vm)));
            }
            if err(&vm) == 0 {
                if st.is_empty() {
                    return fail(key, "nothing on the stack");
                }
                reset(&mut vm);
                vm.s_stack().push(st[0]);
                eval(&mut vm, "count type");
                let o = obs(&mut vm);
                if o.err != 0 || o.out != out_w {
                    return fail(key, format!("expected {:?}, got {:?}", out_w, o.out));
                }
            }
        }
        5 => {
            let full = format!(".( {}", s);
            key = format!("{:?}", full);
            wk.note(&key);
            // show only: what follows the parenthesis is interpreted
            let rest: String = match s.find(')') {
                Some(p) => s[p + 1..].to_string(),
                None => String::new(),
            };
            let mut other = false;
            let end = scan(&rest, &mut |w| {
                other |= w == "\\\\";
                false
            });
            if other {
                wk.put_vm(vm);
                return Ok(());
            }
            eval(&mut vm, &full);
            let o = obs(&mut vm);
            if (o.err != 0) != (end != End::Done) {
                return fail(key, format!("error {} but the rest is {:?}", o.err, rest));
            }
            let got = o.out.strip_prefix(' ').unwrap_or(&o.out);
            if got != out_w && o.out != out_w {
                return fail(key, format!("expected {:?}, got {:?}", out_w, o.out));
            }
        }
        _ => {
            key = format!("{:?} {:?}", src, run);
            wk.note(&key);
            eval(&mut vm, &src);
            if err(&vm) != 0 {
                return fail(key, format!("error {} in the definition", err(&vm)));
            }
            reset_keep(&mut vm);
            eval(&mut vm, run);
            let o = obs(&mut vm);
            // form 0: type takes the two cells under the 2
            let got_s = o.s.clone();
            let want_s: Vec<isize> = match form {
                0 => vec![1],
                2 => vec![],
                _ => st.clone(),
            };
            let ok_s = match form {
                0 | 2 => true,
                _ => got_s == want_s,
            };
            if form == 0 || form == 2 {
                // rearranged below
                return strings_check(wk, vm, key, &s, form);
            }
            if o.err != 0 || o.out != out_w || !ok_s {
                return fail(key, format!("expected {:?} {:?}, got {:?} {:?} error {}", out_w, st, o.out, o.s, o.err));
            }
        }
    }
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(form as u64).u(n as u64).u(i));
    wk.put_vm(vm);
    Ok(())
}

fn reset_keep(vm: &mut VM) {
    // stacks and output only: a definition may still be open
    vm.s_stack().reset();
    clear_out(vm);
}

fn strings_check(wk: &mut Wk, mut vm: VM, key: String, s: &str, _form: usize) -> CaseResult {
    // w: 1 c-addr u 2
    let compiling = vm.state().is_compiling;
    if compiling {
        return fail(key, "the definition was not ended");
    }
    reset(&mut vm);
    eval(&mut vm, "w");
    let st = vm.s_stack().as_slice().to_vec();
    if st.len() != 4 || st[0] != 1 || st[3] != 2 || st[2] != s.len() as isize {
        return fail(key, format!("expected 1 c-addr {} 2, got {:?}", s.len(), st));
    }
    reset(&mut vm);
    vm.s_stack().push2(st[1], st[2]);
    eval(&mut vm, "type");
    let o = obs(&mut vm);
    wk.trans(2);
    wk.trace();
    wk.state(H::new().s(&key));
    if o.err != 0 || o.out != s {
        return fail(key, format!("the text is {:?}", o.out));
    }
    wk.put_vm(vm);
    Ok(())
}

/// Long strings: every length around the boundaries.
fn lengths(wk: &mut Wk, i: u64) -> CaseResult {
    let n = if i <= 3000 { i as usize } else { 3000 + (i as usize - 3000) * 97 + i as usize % 8 };
    let s: String = (0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect();
    let mut vm = machine(wk);
    if 2 * n + 3000 > room(&mut vm) {
        vm = new_vm();
        reset(&mut vm);
    }
    if 2 * n + 3000 > room(&mut vm) {
        return Ok(());
    }
    let key = format!("a string of {} characters", n);
    wk.note(&key);
    eval(&mut vm, &format!(": w s\" {}\" 77 ; : v .\" {}\" 78 ; w", s, s));
    let st = vm.s_stack().as_slice().to_vec();
    if err(&vm) != 0 || st.len() != 3 || st[1] != n as isize || st[2] != 77 {
        return fail(key, format!("stack {:?} error {}", st, err(&vm)));
    }
    reset(&mut vm);
    vm.s_stack().push2(st[0], st[1]);
    eval(&mut vm, "type v");
    let o = obs(&mut vm);
    wk.trans(2);
    wk.trace();
    wk.state(H::new().u(i));
    if o.err != 0 || o.s != [78] || o.out != format!("{}{}", s, s) {
        return fail(key, format!("shown as {:?}", o.out));
    }
    wk.put_vm(vm);
    Ok(())
}

/// Long words, comments, parsed texts and lines of many words.
fn long_texts(wk: &mut Wk, i: u64) -> CaseResult {
    let form = (i % 9) as usize;
    let k = (i / 9) as usize;
    // 1..900, and about the powers of two to 2^17
    let n = if k < 900 { k + 1 } else { (1usize << (10 + (k - 900) / 7)) - 3 + (k - 900) % 7 };
    let t: String = (0..n).map(|k| (b'a' + (k % 23) as u8) as char).collect();
    let w = |w: &str| w.repeat(n);
    let ni = n as isize;
    let (src, want, e): (String, Vec<isize>, isize) = match form {
        0 => (format!("( {}) 5", t), vec![5], 0),
        1 => (format!("7 \\ {}\n8", t), vec![7, 8], 0),
        2 => (format!("9 char ) p-t {})", t), vec![9], 0),
        3 => (format!("9 pw-t {} ", t), vec![9], 0),
        4 => (format!("[char] {}", t), vec![], -14),
        5 => (format!("1 {}q 5", t), vec![1], -13),
        6 => (format!("0 {}9", w("1+ ")), vec![ni, 9], 0),
        7 => (format!("{}4", w(" ")), vec![4], 0),
        _ => (format!("3 {}4", w("\n\n")), vec![3, 4], 0),
    };
    let mut vm = machine(wk);
    let key = format!("{}... ({} characters or words)", src.chars().take(20).collect::<String>(), n);
    wk.note(&key);
    eval(&mut vm, &src);
    let o = obs(&mut vm);
    wk.trans(n as u64);
    wk.trace();
    wk.state(H::new().u(i + 900_000_000));
    if o.err != e || (e == 0 && o.s != want) {
        return fail(key, format!("expected {:?} error {}, got {:?} error {}", want, e, o.s, o.err));
    }
    if form == 5 && tok(&mut vm) != t.clone() + "q" || (form == 2 || form == 3) && o.out.trim() != t {
        return fail(key, format!("the token has {} characters", tok(&mut vm).len()));
    }
    recover(&mut vm);
    wk.put_vm(vm);
    Ok(())
}

/// A source line of n words: each is seen exactly once; word lengths vary.
fn long_lines(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i % 60) as usize + 1;
    let sep = [" ", "  ", "\t", "\n", " \r\n "][(i / 60) as usize];
    let mut vm = machine(wk);
    let words: Vec<String> = (0..n).map(|k| format!("{}{}", "0".repeat(k % 9), k)).collect();
    let src = words.join(sep);
    wk.note(&src);
    eval(&mut vm, &src);
    let o = obs(&mut vm);
    wk.trans(n as u64);
    wk.trace();
    wk.state(H::new().u(i));
    let want: Vec<isize> = (0..n as isize).collect();
    if o.err != 0 || o.s != want {
        return fail(src, format!("got {:?} error {}", o.s, o.err));
    }
    wk.put_vm(vm);
    Ok(())
}

/// char, [char], 'c' and emit for every single-byte character.
fn chars(wk: &mut Wk, i: u64) -> CaseResult {
    let c = (i % 94 + 33) as u8 as char;
    let mut vm = machine(wk);
    let (src, want): (String, Vec<isize>) = match i / 94 {
        0 => (format!("char {}", c), vec![c as isize]),
        1 => (format!("char {}zz 5", c), vec![c as isize, 5]),
        2 => (format!(": w [char] {} ; w", c), vec![c as isize]),
        3 => (format!("'{}'", c), vec![c as isize]),
        4 => (format!(": w '{}' 1 ; w", c), vec![c as isize, 1]),
        5 => (format!(": w [char] {}q emit ; w", c), vec![]),
        _ => (format!("{} emit", c as isize + 256), vec![]),
    };
    wk.note(&src);
    eval(&mut vm, &src);
    let o = obs(&mut vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i));
    let want_out = if i / 94 >= 5 { c.to_string() } else { String::new() };
    if o.err != 0 || o.s != want || o.out.replace("Redefining w", "") != want_out {
        return fail(src, format!("expected {:?} {:?}, got {:?} {:?} error {}", want, want_out, o.s, o.out, o.err));
    }
    wk.put_vm(vm);
    Ok(())
}

/// `word` puts its text at the free space; what stands at `pad` stays.
fn beside_pad(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i / 8) as usize + 1;
    let t: String = (0..n).map(|k| (b'a' + (k % 23) as u8) as char).collect();
    let mut vm = machine(wk);
    let key = format!("a text of 84 bytes at pad, free space moved by {}, then word takes {} characters", i % 8, n);
    wk.note(&key);
    eval(&mut vm, &format!("marker -t {} allot pad", i % 8));
    let pad = vm.s_stack().pop() as usize;
    let here = vm.data_space().here();
    for k in 0..84 {
        unsafe { vm.data_space().put_u8(200 - k as u8, pad + k) };
    }
    eval(&mut vm, &format!("32 word {} count pad", t));
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i));
    let o = obs(&mut vm);
    if o.err != 0 || o.s != [here as isize + 1, n as isize, pad as isize] {
        return fail(key, format!("got {:?} error {}", o.s, o.err));
    }
    if (0..n).any(|k| unsafe { vm.data_space().get_u8(here + 1 + k) } != t.as_bytes()[k]) {
        return fail(key, "the text differs");
    }
    if (0..84).any(|k| unsafe { vm.data_space().get_u8(pad + k) } != 200 - k as u8) {
        return fail(key, "the text at pad changed");
    }
    vm.s_stack().reset();
    eval(&mut vm, "-t");
    wk.put_vm(vm);
    Ok(())
}

/// The 64 characters from 64 * `i`: in words, quotes, comments, names of characters and texts.
fn all_chars(wk: &mut Wk, i: u64) -> CaseResult {
    for c in (i as u32 * 64..i as u32 * 64 + 64).filter_map(char::from_u32) {
        let mut vm = machine(wk);
        let src = format!("character {:X}", c as u32);
        wk.note(&src);
        let step = |wk: &mut Wk, vm: &mut VM, text: &str, want: &[isize], shows: &str| -> CaseResult {
            eval(vm, text);
            wk.trans(1);
            let o = obs(vm);
            clear_out(vm);
            vm.s_stack().reset();
            if o.err != 0 || o.s != want || o.out != shows {
                return fail(format!("{:?}", text), format!("expected {:?} {:?}, got {:?} {:?} error {}", want, shows, o.s, o.out, o.err));
            }
            Ok(())
        };
        let u = c as isize;
        if !is_ws(c) {
            step(wk, &mut vm, &format!("pw-t a{}b 1", c), &[1], &format!("a{}b", c))?;
            step(wk, &mut vm, &format!("2 pw-t \t{}\r\n3", c), &[2, 3], &c.to_string())?;
            step(wk, &mut vm, &format!("char {} 4 char {}z 5", c, c), &[u, 4, u, 5], "")?;
            step(wk, &mut vm, &format!("32 word {}a count type", c), &[], &format!("{}a", c))?;
        }
        if c != ')' {
            step(wk, &mut vm, &format!("( {} ) 6 (  x{}x) 7", c, c), &[6, 7], "")?;
            step(wk, &mut vm, &format!(".( {}q) 8", c), &[8], &format!(" {}q", c))?;
            step(wk, &mut vm, &format!("41 p-t {}) 9", c), &[9], &format!(" {}", c))?;
        }
        if c != '"' {
            step(wk, &mut vm, &format!("marker -t : t s\" {}k\" type .\" {}\" 10 ; t -t 11", c, c), &[10, 11], &format!("{}k{}", c, c))?;
        }
        if c != '\n' {
            step(wk, &mut vm, &format!("\\ {}\n 12", c), &[12], "")?;
        }
        wk.state(H::new().u(u as u64));
        wk.put_vm(vm);
    }
    wk.trace();
    Ok(())
}

/// Words that need a name or a delimiter, at the very end of the text.
fn at_end(wk: &mut Wk, i: u64) -> CaseResult {
    const W: &[(&str, isize)] = &[
        (":", -39), ("create", -39), ("variable", -39), ("5 constant", -39), ("1e fconstant", -39), ("marker", -39),
        ("'", -39), ("char", -39), ("defer", -39), ("1 2 2constant", -39), ("2variable", -39), ("fvariable", -39),
        (": w postpone", -39), (": w [']", -39), (": w [char]", -39), ("(", 0), ("\\", 0), (".(", 0), (": w s\"", 0),
        (": w .\"", 0), ("char x parse drop", -4), ("bl word drop", 0), ("parse-word", 0), ("0 2 +field", -39),
    ];
    let (w, e) = W[(i % W.len() as u64) as usize];
    let tail = ["", " ", "\n", " \t ", "   \r\n"][(i / W.len() as u64) as usize];
    let src = format!("{}{}", w, tail);
    let mut vm = new_vm();
    reset(&mut vm);
    let key = format!("{:?}", src);
    wk.note(&key);
    let words0 = {
        eval(&mut vm, "words");
        let w = out(&mut vm);
        clear_out(&mut vm);
        w
    };
    eval(&mut vm, &src);
    let o = obs(&mut vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i));
    if w.starts_with("char x parse") {
        return Ok(());
    }
    if o.err != e {
        return fail(key, format!("expected error {}, got {}", e, o.err));
    }
    recover(&mut vm);
    clear_out(&mut vm);
    eval(&mut vm, "words");
    if !w.starts_with(": w") && out(&mut vm) != words0 {
        return fail(key, "the word list changed");
    }
    clear_out(&mut vm);
    reset(&mut vm);
    eval(&mut vm, ": zz 1 2 + . ; zz");
    if out(&mut vm) != "3 " {
        return fail(key, "not usable afterwards");
    }
    Ok(())
}

const A3: &[char] = &['a', ' ', ')', 'é', '字', '😀', '\n'];

#[derive(Clone, Copy, Debug)]
enum P {
    Parse(char),
    Skip(char),
    Word(char),
    ParseWord,
    Char,
    Tick,
}

/// Sequences of parsing words on every text: each takes exactly its part of the text and
/// leaves the rest to the next.
fn parsing(wk: &mut Wk, n: usize, ops: &[P], i: u64) -> CaseResult {
    let c: Vec<char> = digits(i, A3.len() as u64, n).iter().map(|k| A3[*k]).collect();
    let s: String = c.iter().collect();
    let mut vm = machine(wk);
    let key = format!("{:?} on {:?}", ops, s);
    wk.note(&key);
    vm.set_source(&s);
    let here = vm.data_space().here();
    let at = |p: usize| c[..p].iter().map(|x| x.len_utf8()).sum::<usize>();
    let mut p = 0;
    for op in ops {
        let name = match op {
            P::Parse(d) => {
                vm.s_stack().push(*d as isize);
                "parse"
            }
            P::Skip(d) => {
                vm.s_stack().push(*d as isize);
                "_skip"
            }
            P::Word(d) => {
                vm.s_stack().push(*d as isize);
                "word"
            }
            P::ParseWord => "parse-word",
            P::Char => "char",
            P::Tick => "'",
        };
        let xt = vm.find(name).unwrap();
        vm.state().instruction_pointer = 0;
        vm.execute_word(xt);
        vm.run();
        wk.trans(1);
        // model
        let mut t: Option<String> = None;
        match op {
            P::Parse(d) | P::Word(d) => {
                if let P::Word(_) = op {
                    while p < n && c[p] == *d {
                        p += 1;
                    }
                }
                let st = p;
                while p < n && c[p] != *d {
                    p += 1;
                }
                t = Some(c[st..p].iter().collect());
                p = (p + 1).min(n);
            }
            P::Skip(d) => {
                while p < n && c[p] == *d {
                    p += 1;
                }
            }
            P::ParseWord | P::Char | P::Tick => {
                while p < n && is_ws(c[p]) {
                    p += 1;
                }
                let st = p;
                while p < n && !is_ws(c[p]) {
                    p += 1;
                }
                t = Some(c[st..p].iter().collect());
            }
        }
        let mut want_s: Vec<isize> = vec![];
        let mut want_e = 0;
        match op {
            P::Char => match t.as_ref().unwrap().chars().next() {
                Some(ch) => want_s = vec![ch as isize],
                None => want_e = -39,
            },
            P::Tick => want_e = if t.as_ref().unwrap().is_empty() { -39 } else { -13 },
            P::Word(_) => want_s = vec![here as isize],
            _ => {}
        }
        let got_s = vm.s_stack().as_slice().to_vec();
        let e = err(&vm);
        if e != want_e || (e == 0 && got_s != want_s) {
            return fail(key, format!("{:?}: stack {:?} error {}, expected {:?} error {}", op, got_s, e, want_s, want_e));
        }
        if let (P::Word(_), Some(t)) = (op, &t) {
            let a = here - vm.data_space().start();
            let m = mem(&mut vm);
            if m[a] as usize != t.len() || &m[a + 1..a + 1 + t.len()] != t.as_bytes() {
                return fail(key, format!("{:?}: counted string {:?}, expected {:?}", op, &m[a..a + 1 + t.len()], t));
            }
        } else if let Some(t) = &t {
            if tok(&mut vm) != *t {
                return fail(key, format!("{:?} took {:?}, expected {:?}", op, tok(&mut vm), t));
            }
        }
        if e != 0 {
            break;
        }
        let ix = vm.state().source_index;
        if ix != at(p) {
            return fail(key, format!("{:?} left the input at {}, expected {}", op, ix, at(p)));
        }
        vm.s_stack().reset();
    }
    wk.trace();
    wk.state(H::new().s(&key));
    wk.put_vm(vm);
    Ok(())
}

/// save-input remembers a place of the text, restore-input returns to it.
fn places(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    let words = ["aa", "bb", "( \u{e9}\u{4e2d} )", "sv", "rs", "char \u{e9} 233 = 100 + emit"];
    let k = digits(i / 2, words.len() as u64, n);
    let sep = if i % 2 == 0 { " " } else { " \t  " };
    let text: String = k.iter().map(|x| format!("{}{}", words[*x], sep)).collect();
    wk.note(&text);
    let mut vm = machine(wk);
    eval(
        &mut vm,
        "variable id variable ix variable seen variable cnt  2 cnt ! \
         : sv save-input 2 = if ix ! id ! -1 seen ! then ; \
         : rs seen @ cnt @ and if -1 cnt +! id @ ix @ 2 restore-input then ; \
         : aa 97 emit ; : bb 98 emit ;",
    );
    clear_out(&mut vm);
    let ok = err(&vm) == 0;
    eval(&mut vm, &text);
    // model
    let (mut want, mut p, mut saved, mut left) = (String::new(), 0, None, 2);
    while p < n {
        p += 1;
        match k[p - 1] {
            0 => want.push('a'),
            1 => want.push('b'),
            3 => saved = Some(p),
            4 => {
                if let (Some(q), true) = (saved, left > 0) {
                    left -= 1;
                    p = q;
                }
            }
            5 => want.push('c'),
            _ => {}
        }
    }
    wk.trans(n as u64);
    wk.trace();
    wk.state(H::new().s(&text));
    let o = obs(&mut vm);
    if !ok || o.err != 0 || o.out != want || !o.s.is_empty() {
        return fail(text, format!("{:?}, expected output {:?} and no error", o, want));
    }
    wk.put_vm(vm);
    Ok(())
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![];
    for n in 0..=(if t { 7 } else { 6 }) {
        for c in [false, true] {
            scopes.push(Scope::new(
                &format!("every text of {} characters, {}", n, if c { "compiled" } else { "interpreted" }),
                (A1.len() as u64).pow(n as u32),
                if n > 3 { 1024 } else { 16 },
                move |wk, i| scanning(wk, n, c, i),
            ));
        }
    }
    for n in 0..=(if t { 6 } else { 5 }) {
        for f in 0..6 {
            scopes.push(Scope::new(
                &format!("every string of {} characters in {}", n, ["s\"", ".\"", "unclosed s\"", "three strings", "word", ".("][f]),
                (A2.len() as u64).pow(n as u32),
                if n > 3 { 1024 } else { 16 },
                move |wk, i| strings(wk, n, f, i),
            ));
        }
    }
    let mut all = vec![P::ParseWord, P::Char, P::Tick];
    for d in A3 {
        all.push(P::Parse(*d));
        all.push(P::Skip(*d));
        all.push(P::Word(*d));
    }
    let q = all.len() as u64;
    for (n, m) in if t { vec![(3, 3), (5, 2), (7, 1)] } else { vec![(2, 3), (4, 2), (5, 1)] } {
        let all = all.clone();
        let texts = (A3.len() as u64).pow(n as u32);
        scopes.push(Scope::new(
            &format!("every text of {} characters, every sequence of {} parsing words", n, m),
            texts * q.pow(m as u32),
            2048,
            move |wk, i| {
                let ops: Vec<P> = digits(i / texts, q, m).iter().map(|k| all[*k]).collect();
                parsing(wk, n, &ops, i % texts)
            },
        ));
    }
    for n in 1..=(if t { 8 } else { 6 }) {
        scopes.push(Scope::new(&format!("{} words that save and restore the place", n), 2 * 6u64.pow(n as u32), 256, move |wk, i| places(wk, n, i)));
    }
    scopes.push(Scope::new("strings of every length up to 3000 and of many up to what the data space holds", 3300, 16, lengths));
    scopes.push(Scope::new("comments, parsed texts, words, blanks and lines of 1..900 and about 2^k characters", 9 * (900 + 7 * 7), 32, long_texts));
    scopes.push(Scope::new("lines of 1..60 words, separators", 300, 16, long_lines));
    scopes.push(Scope::new("characters 33..126 in char, [char], quotes and emit", 94 * 7, 47, chars));
    scopes.push(Scope::new("every Unicode character in words, quotes, comments, char and word", 0x110000 / 64, 16, all_chars));
    scopes.push(Scope::new("words of every length beside a text at pad", 255 * 8, 64, beside_pad));
    scopes.push(Scope::new("parsing words at the end of the text", 24 * 5, 8, at_end));
    Property {
        id: "C12",
        assumptions: vec![
            "white space is blank, tab, carriage return and line feed".into(),
            "whether .( shows the blank that delimits it is left open".into(),
        ],
        scopes,
    }
}
