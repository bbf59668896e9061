//! C29: a session with the shell.  The shell must answer every line with what a plain machine
//! prints for it, then `ok` or a report of the error, and must be ready for the next line.
use crate::c28::{event, home, Key};
use crate::engine::*;
use crate::screen::*;
use crate::shell;
use crate::vmx;
use crossterm::event::Event;
use crossterm::{set_feed, Feed};
use rtforth::core::Core;
use rtforth::memory::Memory;
use rtforth::output::Output;
use rtforth::tools::Tools;
use std::cell::RefCell;
use std::rc::Rc;

/// What the user types in one go.
#[derive(Clone, Debug)]
enum In {
    Line(&'static str),
    /// Recall the line before, and enter it again.
    Again,
    /// The same, with a character typed and taken back.
    AgainEdited,
    /// Left over in the middle: text, then cursor left and an insertion.
    Edited(&'static str, usize, &'static str),
}
use self::In::*;

const LINES: &[In] = &[
    Line("1 2 +"),
    Line("."),
    Line(": sq dup * ;  7 sq ."),
    Line("sq"),
    Line(": half"),
    Line("2/ ;"),
    Line("10 half ."),
    Line("foo 1 ."),
    Line("1 ( one ) .( a\u{e9}\u{4e2d}) nosuch 3 ."),
    Line("5 6 abort 7"),
    Line("variable v  5 v !"),
    Line("1 v +!  v @ ."),
    Line("hex ff ."),
    Line("decimal 255 ."),
    Line("1.5e f."),
    Line(""),
    Line("   "),
    Line("cr .( x) cr"),
    Line("include @/ok.fth"),
    Line("include @/bad.fth"),
    Line("include @/outer.fth"),
    Line("include @/nest.fth"),
    Line("include @/none.fth"),
    Line("include @/half.fth"),
    Line(": w1 1 throw-here ; : w2 w1 ;"),
    Line(": t1 0 @ ; : t2 1 if t1 then ; t2"),
    Line("t2 9 ."),
    Line("marker m : later 3 ;"),
    Line("m"),
    Line("later ."),
    Line("7 quit 8"),
    Line(": p pause ;  p 3 .  v @ ."),
    Line("variable v  10 v !  : b4 4 activate begin 2 v +! pause again ;  : b5 5 activate begin v @ 3 + v ! pause me . again ;"),
    Line(": p pause ;  b5 b4 p p v @ ."),
    Line(": p pause ;  4 suspend p v @ .  5 suspend 4 resume"),
    Line(": bg 2 activate begin 1 v +! pause again ;  bg"),
    Line("[ ] ] ["),
    Line("drop drop drop drop drop drop"),
    Line("1 2 3 4 5 6 7 8 9 depth ."),
    Line(".( no end"), Line(": s .\" no end"), Line("; s"),
    Line("-work"),
    Line("0 0 goto"),
    Line("5 label here 1 if [ 5 goto ] then"),
    Again,
    AgainEdited,
    Edited("1 3 .", 3, "2 . "),
];

struct Files {
    dir: String,
}

impl Files {
    fn new(wk: &Wk) -> Files {
        let dir = format!("{}/src", wk.scratch);
        std::fs::create_dir_all(&dir).unwrap();
        let w = |n: &str, t: String| std::fs::write(format!("{}/{}", dir, n), t).unwrap();
        w("ok.fth", "1 2 + .\n: fsq dup * ;\n\n5 fsq .\n".into());
        w("bad.fth", ": fine 3 ;\r\nfine . nosuch 4 .\n77 .\n".into());
        w("outer.fth", format!(".( outer)\n\ninclude {}/bad.fth\n99 .\n", dir));
        w("nest.fth", format!("\\ nest\ninclude {}/ok.fth\n\n: never\n  1 2\n  include-nothing ;\n98 .\n", dir));
        w("half.fth", ": half 1\n\n".into());
        Files { dir }
    }
}

fn text_of(e: isize) -> &'static str {
    match e {
        -1 => "Aborted",
        -3 => "Stack overflow",
        -4 => "Stack underflow",
        -9 => "Invalid memory address",
        -10 => "Division by zero",
        -13 => "Undefined word",
        -14 => "Interpreting a compile only word",
        -22 => "Control structure mismatch",
        -24 => "Invalid numeric argument",
        -38 => "Non existent file",
        -39 => "Unexpected end of file",
        _ => "?",
    }
}

/// The machine that says what is to be expected.
struct Oracle {
    /// addresses of what says that `quit` or `bye` was executed
    flags: (usize, usize),
    vm: vmx::VM,
    pending: String,
    last: String,
    ended: bool,
    first: bool,
    /// ended by the arguments
    early: bool,
    /// line number of what is being loaded, for the words of the report
    where_: fn(&str, &str) -> Option<(&'static str, u32, &'static str)>,
}

enum Answer {
    Exact(String),
    /// text before and after the backtrace, and the user's words in it
    Report(String, Vec<String>),
}

thread_local!(static BAD_LINE: RefCell<Option<(u32, &'static str)>> = RefCell::new(None));

fn place(line: &str, token: &str) -> Option<(&'static str, u32, &'static str)> {
    if token == "toolong" {
        return BAD_LINE.with(|b| b.borrow().map(|(n, t)| ("long.fth", n, t)));
    }
    let at = |t: &str| line.find(t).unwrap_or(usize::max_value());
    if token == "nosuch" && at("bad.fth").min(at("outer.fth")) < at("nosuch") {
        Some(("bad.fth", 2, "fine . nosuch 4 ."))
    } else if token == "include-nothing" {
        Some(("nest.fth", 6, "  include-nothing ;"))
    } else {
        None
    }
}

const USER: &[&str] = &["sq", "w1", "w2", "t1", "t2", "half", "bg", "later"];

fn users(trace: &str) -> Vec<String> {
    trace.split_whitespace().filter(|w| USER.contains(w)).map(|w| w.to_string()).collect()
}

impl Oracle {
    fn new(cap: &Capture) -> Oracle {
        let mut vm = vmx::new_vm();
        vmx::reset(&mut vm);
        vmx::eval(&mut vm, "-work variable quits variable byes : quit -1 quits ! bye ; : bye -1 byes ! bye ; : oops bye ; marker -work  ' oops handler!  2 halt 3 halt 4 halt 5 halt");
        assert_eq!(vmx::err(&vm), 0);
        vmx::eval(&mut vm, "quits byes");
        let (q, b) = vm.s_stack().pop2();
        vmx::clear_out(&mut vm);
        cap.take();
        Oracle { flags: (q as usize, b as usize), vm, pending: String::new(), last: String::new(), ended: false, first: false, early: false, where_: place }
    }
    /// The first line, from the arguments: its output is shown with the first answer.
    fn begin(&mut self, line: &str, dir: &str, cap: &Capture) -> Answer {
        self.first = true;
        let a = self.answer(line, dir, cap);
        self.first = false;
        self.early = self.ended;
        a
    }
    fn answer(&mut self, line: &str, dir: &str, cap: &Capture) -> Answer {
        cap.take();
        let first = self.first;
        let vm = &mut self.vm;
        let start = format!("{}{}", self.pending, if first { "" } else { " " });
        self.pending.clear();
        vm.set_output_buffer(start);
        unsafe {
            vm.data_space().put_isize(0, self.flags.0);
            vm.data_space().put_isize(0, self.flags.1);
        }
        vm.set_source(line);
        let w = vm.find("evaluate-input").expect("evaluate-input");
        vm.execute_word(w);
        vm.run();
        let mut printed = String::from_utf8(cap.take()).unwrap();
        let out = vmx::out(vm);
        vmx::clear_out(vm);
        let e = vmx::err(vm);
        let (stops, bye) = unsafe { (vm.data_space().get_isize(self.flags.0) != 0, vm.data_space().get_isize(self.flags.1) != 0) };
        if e == 0 && stops {
            vm.reset();
            vm.state().instruction_pointer = 0;
            self.pending = out;
            return Answer::Exact(printed);
        }
        if first && e == 0 && !bye {
            vm.reset();
            vm.state().instruction_pointer = 0;
            self.pending = out;
            return Answer::Exact(printed);
        }
        let mut end = |t: &mut String| {
            if !out.is_empty() {
                t.push_str(&out);
                t.push('\n');
            }
        };
        if e == 0 && bye || e == -1 || e == -2 {
            end(&mut printed);
            if e == 0 {
                self.ended = true;
                return Answer::Exact(printed);
            }
        }
        if e != -1 && e != -2 {
            printed.push_str(&out);
        }
        if e == 0 {
            if !vm.state().is_compiling {
                printed.push_str(" ok");
            }
            printed.push_str("\r\n");
            return Answer::Exact(printed);
        }
        let r = if e == -1 || e == -2 {
            Answer::Exact(printed)
        } else {
            let tok = vm.last_token().clone().unwrap_or_default();
            printed.push_str(&format!("{} {}", tok, text_of(e)));
            if let Some((file, n, src)) = (self.where_)(line, &tok) {
                printed.push_str(&format!(" ({}/{}:{}: {})", dir, file, n, src));
            }
            vm.dot_backtrace();
            let t = vmx::out(vm);
            vmx::clear_out(vm);
            Answer::Report(printed, users(&t))
        };
        vm.clear_stacks();
        vm.reset();
        vm.state().instruction_pointer = 0;
        r
    }
}

struct Shell {
    queue: Vec<(Vec<Key>, String)>,
    line: usize,
    key: usize,
    cap: Capture,
    answers: Vec<Vec<u8>>,
}

impl Shell {
    fn read(&mut self) -> std::io::Result<Event> {
        if self.key == 0 {
            let b = self.cap.take();
            self.answers.push(b);
        }
        if self.line >= self.queue.len() {
            panic!("the shell still wants keys after the end of the session: {:?}", self.answers.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect::<Vec<_>>());
        }
        let (k, _) = &self.queue[self.line];
        let e = event(k[self.key]);
        self.key += 1;
        if self.key == k.len() {
            // Leave out what the editor draws until the line is complete.
            self.cap.take();
            self.key = 0;
            self.line += 1;
        }
        Ok(e)
    }
}

/// What the shell wrote after the last drawing of the entered line.
fn after_drawing(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b).to_string();
    match s.rfind('\u{1b}') {
        Some(i) => {
            let t = &s[i..];
            let j = t.find(|c: char| c == 'H' || c == 'G' || c == 'C' || c == 'D').map(|j| j + 1).unwrap_or(1);
            t[j..].to_string()
        }
        None => s,
    }
}

fn keys_of(input: &In, last: &str, dir: &str) -> (Vec<Key>, String) {
    let (mut k, text) = match input {
        Line(s) => {
            let s = s.replace('@', "\u{0}");
            // `@/` names the directory of the files; a lone `@` is the word
            let s = s.replace("\u{0}/", &format!("{}/", dir)).replace('\u{0}', "@");
            (s.chars().map(Key::C).collect::<Vec<_>>(), s)
        }
        Again => (vec![Key::Up], last.to_string()),
        AgainEdited => (vec![Key::Up, Key::C('z'), Key::Back], last.to_string()),
        Edited(s, n, t) => {
            let mut k: Vec<Key> = s.chars().map(Key::C).collect();
            k.extend(std::iter::repeat(Key::Left).take(*n));
            k.extend(t.chars().map(Key::C));
            let (a, b) = s.split_at(s.len() - n);
            (k, format!("{}{}{}", a, t, b))
        }
    };
    k.push(Key::Enter);
    (k, text)
}

fn session(wk: &mut Wk, inputs: &[In], eof: bool, key: String) -> CaseResult {
    home(wk);
    wk.note(&key);
    let _ = std::fs::remove_file(std::path::Path::new(&std::env::var("XDG_CACHE_HOME").unwrap()).join("rtforth/history.txt"));
    let files = Files::new(wk);
    let mut queue = vec![];
    let mut last = String::new();
    for i in inputs {
        let (k, t) = keys_of(i, &last, &files.dir);
        if !t.is_empty() {
            last = t.clone();
        }
        queue.push((k, t));
    }
    queue.push(if eof {
        (vec![Key::C('x'), Key::Eof], String::new())
    } else {
        ("[ .( end) bye 4 .".chars().map(Key::C).chain(Some(Key::Enter)).collect(), "[ .( end) bye 4 .".to_string())
    });
    let d = Rc::new(RefCell::new(Shell { queue: queue.clone(), line: 0, key: 0, cap: Capture::get(), answers: vec![] }));
    d.borrow().cap.take();
    let mut vm = shell::VM::new(16);
    d.borrow().cap.take();
    let a = d.clone();
    set_feed(Some(Feed { read: Box::new(move || a.borrow_mut().read()), position: Box::new(|| (0, 0)) }));
    let cold = vm.find("COLD").expect("cold");
    vm.execute_word(cold);
    vm.run();
    vm.flush_output();
    set_feed(None);
    let cap = Capture::get();
    d.borrow_mut().answers.push(cap.take());
    let stacks = (vm.s_stack().as_slice().to_vec(), vm.f_stack().as_slice().to_vec());
    let err = vm.last_error();
    drop(vm);
    cap.take();
    let d = d.borrow();
    let mut o = Oracle::new(&cap);
    if d.line != queue.len() {
        return fail(key, format!("the session ended after line {} of {}", d.line, queue.len()));
    }
    // answers[0] is what precedes the first key
    if !d.answers[0].is_empty() {
        return fail(key, format!("at the start: {:?}", String::from_utf8_lossy(&d.answers[0])));
    }
    for (n, (_, line)) in queue.iter().enumerate() {
        let got = after_drawing(&d.answers[n + 1]);
        wk.trans(1);
        if eof && n + 1 == queue.len() {
            if !got.is_empty() && got.trim_matches(|c| c == '\r' || c == '\n' || c == ' ') != o.pending.trim() {
                return fail(key, format!("at the end of input: {:?}", got));
            }
            continue;
        }
        let ok = match o.answer(line, &files.dir, &cap) {
            Answer::Exact(t) => {
                if got == t {
                    Ok(())
                } else {
                    Err(format!("{:?}", t))
                }
            }
            Answer::Report(t, w) => match got.find(", backtrace: ") {
                Some(j) => {
                    let u = users(&got[j + 13..]);
                    if got[..j] == t[..] && u == w && got.ends_with("\r\n") {
                        Ok(())
                    } else {
                        Err(format!("{:?} with {:?} in the backtrace", t, w))
                    }
                }
                None => Err(format!("a report {:?}", t)),
            },
        };
        wk.state(H::new().s(&got).sl(&o.vm.s_stack().as_slice().to_vec()));
        if let Err(want) = ok {
            return fail(key, format!("line {} {:?} is answered {:?}, expected {}", n + 1, line, got, want));
        }
    }
    wk.trace();
    if !eof && !o.ended {
        return Ok(());
    }
    let want = (o.vm.s_stack().as_slice().to_vec(), o.vm.f_stack().as_slice().to_vec());
    if stacks != want || err.is_some() {
        return fail(key, format!("at the end the stacks are {:?} and the error {:?}, expected {:?}", stacks, err, want));
    }
    Ok(())
}

fn all(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    let eof = i % 2 == 1;
    let l: Vec<In> = crate::c28::digits(i / 2, LINES.len() as u64, n).into_iter().map(|x| LINES[x].clone()).collect();
    let key = format!("lines {:?}, end by {}", l, if eof { "Control-D" } else { "bye" });
    session(wk, &l, eof, key)
}

/// The same lines over and over.
fn many(wk: &mut Wk, times: usize, i: u64) -> CaseResult {
    let n = LINES.len() as u64;
    let (a, b) = ((i % n) as usize, (i / n) as usize);
    let mut l = vec![];
    for k in 0..times {
        if k % 2 == 1 {
            // the prompt itself needs two cells: stay away from a full stack
            l.push(Line("abort"));
        }
        l.push(LINES[a].clone());
        if b < n as usize {
            l.push(LINES[b].clone());
        }
    }
    let key = format!("{} times {:?} and {:?}", times, LINES[a], LINES.get(b));
    session(wk, &l, false, key)
}

/// Lines, words, texts, files and chains of calls of many lengths.
fn lengths(wk: &mut Wk, i: u64) -> CaseResult {
    let form = i % 8;
    let k = (i / 8) as usize;
    let n = if k < 200 { k + 1 } else { [255, 256, 257, 300, 511, 512, 513, 700][k - 200] };
    // each key draws the line anew: long lines take their time
    let n = if form == 3 { n.min(220) } else { n };
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    let t: String = (0..n).map(|j| (b'f' + (j % 20) as u8) as char).collect();
    let line: &'static str = leak(match form {
        0 => format!("{}z 1 .", t),
        1 => format!(".( {}) 6 .", t),
        2 => format!("5 {}.", " ".repeat(n)),
        3 => format!("0 {}.", "1+ ".repeat(n)),
        4 => format!(": half .\" {}\" ; half 3 .", t),
        5 => format!("{} half 8 .", n % 48),
        6 => "include @/long.fth".into(),
        _ => format!("{} 0 do 7 . loop .( {}) nosuch", n % 300 + 1, t),
    });
    let mut ins = vec![Line("1 2 +"), Line(line), Line("7 ."), Line(line), Line("."), Again];
    if form == 5 {
        ins.insert(0, Line(": half dup 0= if 0 @ then 1 - recurse ;"));
    }
    let key = format!("{} of {}", ["an undefined word", ".(", "blanks", "words", ".\"", "calls", "an error in a file", "output"][form as usize], n);
    if form == 6 {
        let dir = Files::new(wk).dir;
        let bad = leak(format!("{}{} toolong 5", " ".repeat(n % 7), "drop 1 ".repeat(n % 37)));
        let many = if n % 16 == 0 { n * 40 } else { n };
        let mut text = String::from(": later 5 ; 1 ");
        for j in 1..many {
            text.push_str(if j % 9 == 4 { "\r\n" } else { "\n" });
            if j % 5 == 1 {
                text.push_str("drop later");
            }
        }
        text.push_str(&format!("\n{}\n8 .\n", bad));
        std::fs::write(format!("{}/long.fth", dir), text).unwrap();
        BAD_LINE.with(|b| *b.borrow_mut() = Some((many as u32 + 1, bad)));
    }
    let r = session(wk, &ins, false, key);
    BAD_LINE.with(|b| *b.borrow_mut() = None);
    r
}

/// Files and sources of two tasks of the shell, and tasks that are resumed without anything to do.
fn tasks(wk: &mut Wk, i: u64) -> CaseResult {
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    if i >= 125 {
        let m = i - 125;
        let mut l = vec![Line(": p pause ;  p 1 .")];
        for t in 2..6 {
            if m >> (t - 2) & 1 == 1 {
                l.push(Line(leak(format!("{} resume 2 .", t))));
            }
        }
        l.extend(vec![Line("p p 3 ."), Line("nosuch"), Line("p 4 .")]);
        return session(wk, &l, false, format!("{:?}", l));
    }
    let (a, b, op) = (i % 5 + 1, i / 5 % 5 + 1, i / 25);
    let mut l = vec![Line("variable v  0 v !  : p pause ;")];
    for (k, t) in [a, b].iter().copied().enumerate() {
        let open = |f: &str| format!("s\" @/{}.fth\" r/o open-file drop", f);
        let source = |f: &str| format!("s\" @/{}.fth\" 2dup r/o open-file drop open-source", f);
        let f = ["ok", "half"][k];
        let (first, then) = match op {
            0 => (format!("{} v !", open(f)), "1 close-file v !".to_string()),
            1 => (format!("{} dup v ! dup load-line 2drop .source-line", source(f)), "1 .source-line 1 .source-path 1 close-source".to_string()),
            2 => (format!("{} drop {} v !", open(f), open("bad")), format!("1 close-file drop {} v !", open("outer"))),
            3 => (format!("{} v ! 1 >r 2 >r r> v +! r> v +!", source(f)), format!("{} dup v ! load-line v +! v +!", source("bad"))),
            _ => (format!("1.5e {} s>f f+ f>s v !", open("ok")), format!("s\" @/{}.fth\" included 5 v !", "ok")),
        };
        if t == 1 {
            l.push(Line(leak(format!(": w{} {} ;  w{} v @ .", k, first, k))));
            l.push(Line(leak(format!(": x{} {} ;  p v @ .", k, then))));
        } else {
            l.push(Line(leak(format!(": w{} {} activate {} pause pause {} begin pause again ;", k, t, first, then))));
            l.push(Line(leak(format!("w{} p v @ .", k))));
        }
    }
    for (k, t) in [a, b].iter().copied().enumerate() {
        if t == 1 {
            l.push(Line(["x0 v @ .", "x1 v @ ."][k]));
        }
        l.extend(vec![Line("p v @ ."), Line("p v @ .")]);
    }
    l.push(Line("nosuch"));
    l.push(Line("p v @ ."));
    session(wk, &l, false, format!("{:?}", l))
}

/// The clock of the shell: `ms` waits as long as it says, while other tasks run.
fn clock(wk: &mut Wk, i: u64) -> CaseResult {
    home(wk);
    let n = if i < 40 { i / 2 } else { [990, 1001, 1300][i as usize / 2 - 20] };
    let word = ["mtime", "utime"][(i % 2) as usize];
    let lines = [
        "variable v : bg 3 activate begin 1 v +! pause again ; bg".to_string(),
        format!("{} {} ms {} swap - . v @ .", word, n, word),
        // the clock of microseconds does not only show whole milliseconds
        ": g 0 utime begin utime 1000 mod rot or swap utime over 6000 + > until drop 0= 0= ; g .".to_string(),
        "bye".to_string(),
    ];
    let key = format!("{:?}", lines);
    wk.note(&key);
    let queue = lines.iter().map(|l| (l.chars().map(Key::C).chain(Some(Key::Enter)).collect(), l.clone())).collect();
    let d = Rc::new(RefCell::new(Shell { queue, line: 0, key: 0, cap: Capture::get(), answers: vec![] }));
    let t0 = std::time::Instant::now();
    let mut vm = shell::VM::new(16);
    d.borrow().cap.take();
    let a = d.clone();
    set_feed(Some(Feed { read: Box::new(move || a.borrow_mut().read()), position: Box::new(|| (0, 0)) }));
    let cold = vm.find("COLD").expect("cold");
    vm.execute_word(cold);
    vm.run();
    set_feed(None);
    drop(vm);
    Capture::get().take();
    let wall = t0.elapsed().as_nanos() as u64;
    let d = d.borrow();
    let got = after_drawing(&d.answers[2]);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(n));
    let f: Vec<&str> = got.split_whitespace().collect();
    let unit = if i % 2 == 0 { 1_000_000 } else { 1000 };
    let ok = match (f.get(0).and_then(|x| x.parse::<u64>().ok()), f.get(1).and_then(|x| x.parse::<u64>().ok())) {
        // the clock of milliseconds, by which `ms` waits, is up to one behind
        (Some(t), Some(v)) => t * unit + unit - 1 + (1_000_000 - unit) >= n * 1_000_000 && t <= wall / unit + 1 && (n == 0 || v > 0),
        _ => false,
    };
    if after_drawing(&d.answers[3]).trim() != "-1  ok" {
        return fail(key, format!("utime shows whole milliseconds only: {:?}", after_drawing(&d.answers[3])));
    }
    if !ok || f.get(2) != Some(&"ok") {
        return fail(key, format!("answered {:?} within {} ns", got, wall));
    }
    Ok(())
}

/// What a process writes, without the drawings of its editor.
fn undrawn(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b).to_string();
    let mut parts = s.split("\u{1b}[2K");
    let mut out = parts.next().unwrap_or("").to_string();
    for p in parts {
        out.push_str(&after_drawing(p.as_bytes()));
    }
    out
}

const ARGS: &[&str] = &[
    "1", "2", "+", ".", "nosuch", ": sq dup * ;", "sq", "bye", ".( caf\u{e9})", ":", ";", "[", "quit", "include @/bad.fth", "", "abort",
];

fn run_rtf(dir: &str, args: &[String], keys: &str) -> (Option<i32>, Vec<u8>) {
    let exe = std::env::current_exe().unwrap().with_file_name("rtf");
    let cache = std::env::current_dir().unwrap().join(dir).join("cache");
    let o = std::process::Command::new(exe)
        .args(args)
        .env("XDG_CACHE_HOME", cache)
        .env("STUB_KEYS", keys)
        .stdin(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .output()
        .expect("rtf");
    (o.status.code(), o.stdout)
}

/// The application as a process: its arguments are the first line.
fn arguments(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    let args = crate::c28::digits(i, ARGS.len() as u64, n).into_iter().map(|x| ARGS[x].to_string()).collect();
    process(wk, args, n == 1 || i % 64 == 0)
}

/// Many arguments, and long ones.
fn many_arguments(wk: &mut Wk, i: u64) -> CaseResult {
    let n = [20, 60, 126, 127, 128, 250, 341, 342, 500, 511, 512, 600, 1022, 1023, 1024, 1025, 1300, 2047, 2048, 3000][i as usize % 20];
    let mut args: Vec<String> = vec!["7".into(), "1".into()];
    match i / 20 {
        0 => (0..n / 3).for_each(|_| args.push("1+".into())),
        1 => args.push(format!(".( {})", "z".repeat(n))),
        2 => args.push(format!("{}1+", " ".repeat(n))),
        3 => (0..n / 16).for_each(|k| args.push(format!(": w{} {} ;", k, k))),
        _ => {
            (0..n / 10).for_each(|_| args.push("dup drop".into()));
            args.push("nosuch".into());
        }
    }
    args.extend(vec![".".into(), ".".into()]);
    process(wk, args, false)
}

fn process(wk: &mut Wk, args: Vec<String>, recall: bool) -> CaseResult {
    home(wk);
    let files = Files::new(wk);
    let args: Vec<String> = args.iter().map(|a| a.replace("@/", &format!("{}/", files.dir))).collect();
    let key = format!("arguments {:?}", args);
    wk.note(&key);
    let _ = std::fs::remove_file(format!("{}/cache/rtforth/history.txt", wk.scratch));
    let lines = ["2 1 + .", "nosuch"];
    let (code, got) = run_rtf(&wk.scratch, &args, &(lines.join("\n") + "\n\u{4}"));
    let got = undrawn(&got);
    let cap = Capture::get();
    let mut o = Oracle::new(&cap);
    let mut want: Vec<Answer> = vec![];
    if args.is_empty() {
        let v = got.split("\r\n").next().unwrap_or("").to_string();
        if !v.starts_with("rtForth v") {
            return fail(key, format!("greets with {:?}", got));
        }
        want.push(Answer::Exact(format!("{}\r\nType 'bye' or press Ctrl-D to exit.\r\n", v)));
    } else {
        want.push(o.begin(&args.iter().map(|a| format!("{} ", a)).collect::<String>(), &files.dir, &cap));
    }
    for l in &lines {
        if !o.ended {
            want.push(o.answer(l, &files.dir, &cap));
        }
    }
    wk.trans(want.len() as u64);
    wk.trace();
    wk.state(H::new().s(&got));
    let mut rest = &got[..];
    for w in want {
        let (t, u) = match w {
            Answer::Exact(t) => (t, None),
            Answer::Report(t, u) => (t, Some(u)),
        };
        if !rest.starts_with(&t[..]) {
            return fail(key, format!("writes {:?}, expected {:?} at {:?}", got, t, rest));
        }
        rest = &rest[t.len()..];
        if let Some(u) = u {
            let j = match (rest.starts_with(", backtrace: "), rest.find("\r\n")) {
                (true, Some(j)) => j,
                _ => return fail(key, format!("writes {:?}, expected a backtrace at {:?}", got, rest)),
            };
            if users(&rest[13..j]) != u {
                return fail(key, format!("writes {:?}, expected {:?} in the backtrace", got, u));
            }
            rest = &rest[j + 2..];
        }
    }
    if !o.pending.is_empty() {
        rest = rest.strip_prefix(&format!("{}\n", o.pending)[..]).unwrap_or(rest);
    }
    if rest != "\r" || code != Some(0) {
        return fail(key, format!("writes {:?} at the end, exit code {:?}", rest, code));
    }
    // A later process recalls what was typed.
    if recall {
        let keep = !o.early;
        let typed: Vec<&str> = if keep { lines.to_vec() } else { vec![] };
        for k in 0..typed.len() {
            let keys = "\u{11}".repeat(k + 1) + "\u{4}";
            let (code, b) = run_rtf(&wk.scratch, &["1".into()], &keys);
            let s = String::from_utf8_lossy(&b).to_string();
            if code != Some(0) || !s.contains(typed[typed.len() - 1 - k]) {
                return fail(key, format!("{} up in a later process shows {:?} with exit code {:?}", k + 1, s, code));
            }
        }
    }
    Ok(())
}

/// Options, and what is not one.
fn options(wk: &mut Wk, i: u64) -> CaseResult {
    home(wk);
    let o = ["-h", "--help", "-v", "--version", "-x", "--nosuch"][(i % 6) as usize];
    let w = (i / 6) as usize;
    let mut args: Vec<String> = vec!["1".into(), ".( out)".into()];
    args.insert(w % 3, o.into());
    if w >= 3 {
        args = vec![o.into()];
    }
    let key = format!("options {:?}", args);
    let (code, b) = run_rtf(&wk.scratch, &args, "");
    let s = undrawn(&b);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().s(&s));
    let ok = match o {
        "-h" | "--help" => code == Some(0) && s.contains("Usage: ") && s.contains("[forth words] [options]") && s.contains("-h, --help") && s.contains("-v, --version"),
        "-v" | "--version" => code == Some(0) && s.starts_with("rtForth v") && s.matches('\n').count() == 1,
        _ => code != Some(0) && code != Some(97),
    };
    if !ok || s.contains(" out") {
        return fail(key, format!("writes {:?}, exit code {:?}", s, code));
    }
    Ok(())
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![];
    let l = LINES.len() as u64;
    for n in 0..=3 {
        // in the quick tier the longest sessions all end by `bye`
        let step = if t || n < 3 { 1 } else { 2 };
        scopes.push(Scope::new(&format!("all sessions of {} lines", n), 2 * l.pow(n as u32) / step, 64, move |wk, i| all(wk, n, i * step)));
    }
    scopes.push(Scope::new("one line or two, over and over", if t { l * (l + 1) } else { l * 12 }, 8, move |wk, i| {
        many(wk, 40, if t { i } else { i % l + i / l * 4 * l })
    }));
    for n in 0..=(if t { 3 } else { 2 }) {
        scopes.push(Scope::new(&format!("processes with {} arguments", n), (ARGS.len() as u64).pow(n as u32), 8, move |wk, i| arguments(wk, n, i)));
    }
    scopes.push(Scope::new("lines, words, texts, files and calls of 1..200 and up to 700", 8 * 208, 4, lengths));
    scopes.push(Scope::new("files, sources and loads of every two tasks, tasks resumed with nothing to do", 125 + 16, 2, tasks));
    scopes.push(Scope::new("processes with arguments of up to 3,000 characters in all", 100, 2, many_arguments));
    scopes.push(Scope::new("waiting for 0..19 ms, and about a second", 46, 1, clock));
    scopes.push(Scope::new("processes with options", 24, 4, options));
    Property {
        id: "C29",
        assumptions: vec![
            "one line of output per answer is compared as the bytes written after the editor's last drawing".into(),
            "errors in background tasks and a handler set by the user are left out".into(),
        ],
        scopes,
    }
}
