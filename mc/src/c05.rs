//! C05: control structures do what their source structure says.
//! Every program with up to N structure nodes, and every sequence of branch decisions.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;

#[derive(Clone, Debug)]
enum S {
    Emit(char),
    Call,
    Exit,
    Leave,
    Recurse,
    // The number of a condition selects its form.
    If(u8, Vec<S>),
    IfElse(u8, Vec<S>, Vec<S>),
    Until(u8, Vec<S>),
    While(u8, Vec<S>, Vec<S>),
    Again(Vec<S>),
    Do(u8, Vec<S>),
    Case(u8, Vec<Vec<S>>, Vec<S>),
}

/// Forms of a condition: the source, and how the decision `b` (0 or 6) decides (None: it does).
/// Literal conditions count as a tick so that no loop is endless.
pub const FORMS: &[(&str, Option<bool>)] = &[
    ("b", None),
    ("b if -1 else 0 then", None),
    ("b 0= if 0 else 1 then", None),
    ("b 0 or", None),
    ("0 b or", None),
    ("b 0= 0=", None),
    ("b 0 <>", None),
    ("b begin 1 until", None),
    ("b 0 1 0 do drop -1 loop and", None),
    ("b case 0 of 0 endof 1 swap endcase", None),
    ("b dup if else then", None),
    ("t 0", Some(false)),
    ("t 1", Some(true)),
    ("t -1", Some(true)),
    ("t false", Some(false)),
    ("t 1 0= if 1 else 0 then", Some(false)),
    ("t 256", Some(true)),
    ("t 1 32 lshift", Some(true)),
];

thread_local!(static FORM: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(vec![]) });

fn form(k: u8) -> usize {
    FORM.with(|f| {
        let f = f.borrow();
        f.get(k as usize).or(f.last()).copied().unwrap_or(0)
    })
}

/// The counted loops used: (source before, source after, indices visited).
const LOOPS: &[(&str, &str, &[i64])] = &[
    ("2 0 do", "loop", &[0, 1]),
    ("3 1 ?do", "loop", &[1, 2]),
    ("4 4 ?do", "loop", &[]),
    ("8 3 do", "3 +loop", &[3, 6]),
    ("1 3 do", "-1 +loop", &[3, 2, 1]),
];

const MAXN: usize = 8;
/// Counts of blocks and statements with exactly n nodes, inside a loop or not.
pub struct Count {
    b: [[u64; MAXN]; 2],
    s: [[u64; MAXN]; 2],
}

fn leafs(l: usize) -> u64 {
    4 + l as u64
}

impl Count {
    pub fn new() -> Count {
        let mut c = Count { b: [[0; MAXN]; 2], s: [[0; MAXN]; 2] };
        for n in 0..MAXN {
            // statements of size n use blocks of smaller size only
            for l in (0..2).rev() {
                c.s[l][n] = if n == 0 { 0 } else { (0..NK).map(|k| c.kind(k, l, n)).sum() };
            }
            for l in 0..2 {
                c.b[l][n] = if n == 0 { 1 } else { (1..=n).map(|k| c.s[l][k] * c.b[l][n - k]).sum() };
            }
        }
        c
    }
    pub fn blocks(&self, n: usize) -> u64 {
        self.b[0][n]
    }
    fn conv2(&self, l: usize, m: usize) -> u64 {
        (0..=m).map(|a| self.b[l][a] * self.b[l][m - a]).sum()
    }
    /// Number of statements of kind k with n nodes.
    fn kind(&self, k: usize, l: usize, n: usize) -> u64 {
        let m = n - 1;
        match k {
            0 => {
                if n == 1 {
                    leafs(l)
                } else {
                    0
                }
            }
            1 | 2 | 3 => self.b[l][m],
            4 | 5 | 6 => self.conv2(l, m),
            7 => (0..=m).map(|a| self.b[l][a] * self.conv2(l, m - a)).sum(),
            _ => self.b[1][m],
        }
    }
}
const NK: usize = 8 + 5;

fn un2(c: &Count, l: usize, m: usize, mut i: u64, ch: &mut (u32, u8)) -> (Vec<S>, Vec<S>) {
    for a in 0..=m {
        let k = c.b[l][a] * c.b[l][m - a];
        if i < k {
            let x = unblock(c, l, a, i / c.b[l][m - a], ch);
            let y = unblock(c, l, m - a, i % c.b[l][m - a], ch);
            return (x, y);
        }
        i -= k;
    }
    panic!()
}

fn number(ch: &mut (u32, u8)) -> u8 {
    ch.1 += 1;
    ch.1 - 1
}

fn unstmt(c: &Count, l: usize, n: usize, mut i: u64, ch: &mut (u32, u8)) -> S {
    let m = n - 1;
    for k in 0..NK {
        let t = c.kind(k, l, n);
        if i >= t {
            i -= t;
            continue;
        }
        return match k {
            0 => match i {
                0 => {
                    ch.0 += 1;
                    S::Emit(char::from_u32(96 + ch.0).unwrap())
                }
                1 => S::Call,
                2 => S::Exit,
                3 => S::Recurse,
                _ => S::Leave,
            },
            1 => {
                let n = number(ch);
                S::If(n, unblock(c, l, m, i, ch))
            }
            2 => {
                let n = number(ch);
                S::Until(n, unblock(c, l, m, i, ch))
            }
            3 => S::Again(unblock(c, l, m, i, ch)),
            4 => {
                let n = number(ch);
                let (a, b) = un2(c, l, m, i, ch);
                S::IfElse(n, a, b)
            }
            5 => {
                let n = number(ch);
                let (a, b) = un2(c, l, m, i, ch);
                S::While(n, a, b)
            }
            6 => {
                let n = number(ch);
                let (a, b) = un2(c, l, m, i, ch);
                S::Case(n, vec![a], b)
            }
            7 => {
                let n = number(ch);
                let mut i = i;
                for a in 0..=m {
                    let w = c.conv2(l, m - a);
                    let t = c.b[l][a] * w;
                    if i < t {
                        let x = unblock(c, l, a, i / w, ch);
                        let (y, z) = un2(c, l, m - a, i % w, ch);
                        return S::Case(n, vec![x, y], z);
                    }
                    i -= t;
                }
                panic!()
            }
            _ => S::Do((k - 8) as u8, unblock(c, 1, m, i, ch)),
        };
    }
    panic!()
}

fn unblock(c: &Count, l: usize, n: usize, mut i: u64, ch: &mut (u32, u8)) -> Vec<S> {
    if n == 0 {
        return vec![];
    }
    for k in 1..=n {
        let t = c.s[l][k] * c.b[l][n - k];
        if i < t {
            let s = unstmt(c, l, k, i / c.b[l][n - k], ch);
            let mut v = vec![s];
            v.extend(unblock(c, l, n - k, i % c.b[l][n - k], ch));
            return v;
        }
        i -= t;
    }
    panic!()
}

fn src(b: &[S], d: usize, o: &mut String) {
    for s in b {
        match s {
            S::Emit(c) => o.push_str(&format!("[char] {} emit ", c)),
            S::Call => o.push_str("h "),
            S::Exit => {
                for _ in 0..d {
                    o.push_str("unloop ");
                }
                o.push_str("exit ");
            }
            S::Leave => o.push_str("leave "),
            S::Recurse => o.push_str("t recurse "),
            S::If(n, a) => {
                o.push_str(FORMS[form(*n)].0);
                o.push_str(" if ");
                src(a, d, o);
                o.push_str("then ");
            }
            S::IfElse(n, a, e) => {
                o.push_str(FORMS[form(*n)].0);
                o.push_str(" if ");
                src(a, d, o);
                o.push_str("else ");
                src(e, d, o);
                o.push_str("then ");
            }
            S::Until(n, a) => {
                o.push_str("begin ");
                src(a, d, o);
                o.push_str(FORMS[form(*n)].0);
                o.push_str(" until ");
            }
            S::While(n, a, e) => {
                o.push_str("begin ");
                src(a, d, o);
                o.push_str(FORMS[form(*n)].0);
                o.push_str(" while ");
                src(e, d, o);
                o.push_str("repeat ");
            }
            S::Again(a) => {
                o.push_str("begin t ");
                src(a, d, o);
                o.push_str("again ");
            }
            S::Do(k, a) => {
                let (p, q, _) = LOOPS[*k as usize];
                o.push_str(p);
                o.push_str(" i u ");
                if d > 0 {
                    o.push_str("j u ");
                }
                src(a, d + 1, o);
                o.push_str(q);
                o.push(' ');
            }
            S::Case(n, arms, e) => {
                o.push_str(match FORMS[form(*n)].1 {
                    None => "b b + case ",
                    Some(false) => "t 0 case ",
                    Some(true) => "t 6 case ",
                });
                for (k, a) in arms.iter().enumerate() {
                    o.push_str(&format!("{} of ", k * 6));
                    src(a, d, o);
                    o.push_str("endof ");
                }
                src(e, d, o);
                o.push_str("endcase ");
            }
        }
    }
}

#[derive(PartialEq)]
enum Flow {
    Next,
    Leave,
    Exit,
    Abort,
}

struct M<'a> {
    prog: &'a [S],
    bits: u64,
    fuel: usize,
    used: usize,
    out: String,
    st: Vec<i64>,
    loops: Vec<i64>,
    /// bit positions that were tick, not decisions
    ticks: u64,
    /// cells on the return stack below the current call
    below: usize,
    deep: bool,
}

impl<'a> M<'a> {
    fn bit(&mut self) -> Option<i64> {
        if self.used >= self.fuel {
            return None;
        }
        let r = (self.bits >> self.used) & 1;
        self.used += 1;
        Some(r as i64 * 6)
    }
    fn cond(&mut self, n: u8) -> Option<i64> {
        match FORMS[form(n)].1 {
            None => self.bit(),
            Some(v) => {
                if self.tick() {
                    Some(v as i64)
                } else {
                    None
                }
            }
        }
    }
    fn tick(&mut self) -> bool {
        if self.used >= self.fuel {
            return false;
        }
        self.ticks |= 1 << self.used;
        self.used += 1;
        true
    }
    fn run(&mut self, b: &[S]) -> Flow {
        for s in b {
            let f = match s {
                S::Emit(c) => {
                    self.out.push(*c);
                    Flow::Next
                }
                S::Call => {
                    self.out.push_str("HL");
                    Flow::Next
                }
                S::Exit => Flow::Exit,
                S::Leave => Flow::Leave,
                S::Recurse => {
                    if !self.tick() {
                        Flow::Abort
                    } else {
                        let saved = std::mem::take(&mut self.loops);
                        self.below += 3 * saved.len() + 1;
                        let p = self.prog;
                        let f = self.run(p);
                        self.below -= 3 * saved.len() + 1;
                        self.loops = saved;
                        if f == Flow::Abort {
                            Flow::Abort
                        } else {
                            Flow::Next
                        }
                    }
                }
                S::If(n, a) => match self.cond(*n) {
                    None => Flow::Abort,
                    Some(0) => Flow::Next,
                    _ => self.run(a),
                },
                S::IfElse(n, a, e) => match self.cond(*n) {
                    None => Flow::Abort,
                    Some(0) => self.run(e),
                    _ => self.run(a),
                },
                S::Until(n, a) => loop {
                    let f = self.run(a);
                    if f != Flow::Next {
                        break f;
                    }
                    match self.cond(*n) {
                        None => break Flow::Abort,
                        Some(0) => {}
                        _ => break Flow::Next,
                    }
                },
                S::While(n, a, e) => loop {
                    let f = self.run(a);
                    if f != Flow::Next {
                        break f;
                    }
                    match self.cond(*n) {
                        None => break Flow::Abort,
                        Some(0) => break Flow::Next,
                        _ => {}
                    }
                    let f = self.run(e);
                    if f != Flow::Next {
                        break f;
                    }
                },
                S::Again(a) => loop {
                    if !self.tick() {
                        break Flow::Abort;
                    }
                    let f = self.run(a);
                    if f != Flow::Next {
                        break f;
                    }
                },
                S::Do(k, a) => {
                    let mut r = Flow::Next;
                    for i in LOOPS[*k as usize].2 {
                        self.out.push((b'0' + *i as u8) as char);
                        if let Some(j) = self.loops.last() {
                            self.out.push((b'0' + *j as u8) as char);
                        }
                        self.loops.push(*i);
                        // no room for this loop and the words called in it
                        if self.below + 3 * self.loops.len() + 6 > 64 {
                            self.deep = true;
                        }
                        let f = self.run(a);
                        self.loops.pop();
                        if f == Flow::Leave {
                            break;
                        }
                        if f != Flow::Next {
                            r = f;
                            break;
                        }
                    }
                    r
                }
                S::Case(n, arms, e) => {
                    let (x, y) = match FORMS[form(*n)].1 {
                        None => {
                            let x = self.bit();
                            (x, if x.is_some() { self.bit() } else { None })
                        }
                        Some(v) => (if self.tick() { Some(v as i64 * 6) } else { None }, Some(0)),
                    };
                    match (x, y) {
                        (Some(x), Some(y)) => {
                            let v = x + y;
                            if (v / 6) < arms.len() as i64 {
                                self.run(&arms[(v / 6) as usize])
                            } else {
                                self.st.push(v);
                                if self.st.len() > 20 {
                                    self.deep = true;
                                }
                                let f = self.run(e);
                                if f == Flow::Next {
                                    self.st.pop();
                                }
                                f
                            }
                        }
                        _ => Flow::Abort,
                    }
                }
            };
            if f != Flow::Next {
                return f;
            }
        }
        Flow::Next
    }
}

const PRELUDE: &str = ": h 2 0 do i 0= if [char] H else [char] L then emit loop ; \
variable bits variable left \
: b left @ if -1 left +! bits @ dup 2/ bits ! 1 and 6 * else abort then ; \
: t left @ if -1 left +! bits @ 2/ bits ! else abort then ; \
: u [char] 0 + emit ;";

struct Cx {
    bits: usize,
    left: usize,
}

/// Words replaced by words that postpone them (see C27).
pub const CONTROL: &[&str] = &[
    "if", "else", "then", "begin", "until", "while", "repeat", "again", "do", "?do", "loop", "+loop", "i", "j", "leave",
    "unloop", "exit", "recurse", "case", "of", "endof", "endcase", "[char]", "emit", "+",
];

/// The same with conditions in the given forms; conditions beyond them have the last form.
fn program_in(wk: &mut Wk, c: &Count, n: usize, fuel: usize, i: u64, forms: &[usize]) -> CaseResult {
    FORM.with(|f| *f.borrow_mut() = forms.to_vec());
    let r = program(wk, c, n, fuel, i, false);
    FORM.with(|f| f.borrow_mut().clear());
    r
}

pub fn program(wk: &mut Wk, c: &Count, n: usize, fuel: usize, i: u64, alias: bool) -> CaseResult {
    let mut ch = (0, 0);
    let prog = unblock(c, 0, n, i, &mut ch);
    let mut text = String::from(": w ");
    src(&prog, 0, &mut text);
    text.push(';');
    if alias {
        text = text
            .split(' ')
            .map(|w| if CONTROL.contains(&w) { format!("p-{}", w) } else { w.to_string() })
            .collect::<Vec<_>>()
            .join(" ")
            .replace(" ;", " p-;");
    }
    let mut vm = wk.take_vm();
    if !wk.store.contains_key(&0) || room(&mut vm) < 4096 {
        vm = new_vm();
        reset(&mut vm);
        eval(&mut vm, PRELUDE);
        if err(&vm) != 0 {
            return fail("prelude", format!("error {}", err(&vm)));
        }
        if alias {
            for w in CONTROL.iter().chain(&[";"]) {
                eval(&mut vm, &format!(": p-{0} postpone {0} ; immediate", w));
            }
            if err(&vm) != 0 || vm.state().is_compiling {
                return fail("prelude", format!("postponing fails with error {}", err(&vm)));
            }
        }
        eval(&mut vm, "bits left");
        let l = vm.s_stack().pop() as usize;
        let b = vm.s_stack().pop() as usize;
        wk.store.insert(0, Box::new(Cx { bits: b, left: l }));
    }
    reset(&mut vm);
    wk.note(&text);
    eval(&mut vm, &text);
    if err(&vm) != 0 || vm.state().is_compiling {
        return fail(text, format!("a well-formed definition was rejected with error {}", err(&vm)));
    }
    let (ba, la) = {
        let c = wk.store[&0].downcast_ref::<Cx>().unwrap();
        (c.bits, c.left)
    };
    // depth-first over decision sequences
    let mut bits: u64 = 0;
    loop {
        let mut m = M {
            prog: &prog,
            bits,
            fuel,
            used: 0,
            out: String::new(),
            st: vec![77],
            loops: vec![],
            ticks: 0,
            below: 0,
            deep: false,
        };
        let f = m.run(&prog);
        let aborted = f == Flow::Abort;
        reset(&mut vm);
        poke(&mut vm, ba, &bits.to_ne_bytes());
        poke(&mut vm, la, &(fuel as u64).to_ne_bytes());
        vm.s_stack().push(77);
        eval(&mut vm, "w");
        let o = obs(&mut vm);
        wk.trans(m.used as u64 + 1);
        wk.trace();
        if n < 5 {
            let fo = FORM.with(|f| f.borrow().iter().fold(0, |a, x| a * 20 + *x as u64 + 1));
            wk.state(H::new().u(fo).u(n as u64).u(i).u(bits & ((1 << m.used) - 1)).u(m.used as u64));
        } else {
            // too many to keep apart: count the distinct outcomes only
            wk.state(o.h());
        }
        let want: Vec<isize> = m.st.iter().map(|x| *x as isize).collect();
        let bad = if aborted {
            o.err != -1 || o.out != m.out
        } else {
            o.err != 0 || o.out != m.out || o.s != want || o.r != 0
        };
        if bad && !m.deep {
            let ds: String = (0..m.used)
                .map(|k| {
                    if m.ticks >> k & 1 == 1 {
                        't'
                    } else if bits >> k & 1 == 1 {
                        'T'
                    } else {
                        'F'
                    }
                })
                .collect();
            return fail(
                text,
                format!(
                    "decisions {}: expected output {:?}, stack {:?}, {}; got output {:?}, stack {:?}, error {}, return stack {}",
                    ds, m.out, want, if aborted { "abort when the decisions run out" } else { "no error" },
                    o.out, o.s, o.err, o.r
                ),
            );
        }
        // next decision sequence: flip the last decision that is F
        let mut k = m.used;
        let mut next = None;
        while k > 0 {
            k -= 1;
            if m.ticks >> k & 1 == 0 && bits >> k & 1 == 0 {
                next = Some((bits & ((1u64 << k) - 1)) | (1 << k));
                break;
            }
        }
        match next {
            Some(b) => bits = b,
            None => break,
        }
    }
    wk.put_vm(vm);
    Ok(())
}

/// Structures around a body of n times `1+`: (source with {}, function of n giving the stack for 0 0).
const LONG: &[(&str, fn(isize) -> Vec<isize>)] = &[
    (": w -1 if {} then 7 + ;", |n| vec![0, n + 7]),
    (": w 0 if {} then 7 + ;", |_| vec![0, 7]),
    (": w -1 if {} else {} 1000 + then ;", |n| vec![0, n]),
    (": w 0 if {} 1000 + else {} then ;", |n| vec![0, n]),
    (": w begin {} swap 1+ swap over 3 = until ;", |n| vec![3, 3 * n]),
    (": w begin over 3 < while {} swap 1+ swap repeat ;", |n| vec![3, 3 * n]),
    (": w begin over 3 = if exit then {} swap 1+ swap again ;", |n| vec![3, 3 * n]),
    (": w 3 0 do {} swap 1+ swap loop ;", |n| vec![3, 3 * n]),
    (": w 0 0 ?do {} loop ;", |_| vec![0, 0]),
    (": w 6 0 do {} 2 +loop ;", |n| vec![0, 3 * n]),
    (": w 9 0 do {} i 1 = if leave then {} loop ;", |n| vec![0, 3 * n]),
    (": w over case 1 of {} endof 0 of {} 5 + endof {} endcase ;", |n| vec![0, n + 5]),
    (": w over case 1 of {} endof 2 of {} endof swap {} swap endcase ;", |n| vec![0, n]),
    (": w dup 2 > if exit then {} dup 0= if 3 + else recurse then ;", |n| vec![0, if n == 0 { 3 } else { ((2 + n) / n) * n }]),
];

fn long_body(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i / LONG.len() as u64) as isize;
    // beyond 700 words a grid up to what the data space holds
    let n = if n < 700 { n } else { 700 + (n - 700) * 83 };
    let (text, f) = LONG[(i % LONG.len() as u64) as usize];
    let mut vm = wk.take_vm();
    let cells = text.matches("{}").count() * n as usize;
    let room = vm.data_space().limit() - vm.data_space().here();
    if cells * 8 + 3000 > room {
        return Ok(());
    }
    ready(&mut vm, (cells * 8 + 3000).max(40000).min(room));
    let key = format!("{} with {} times 1+", text, n);
    wk.note(&key);
    eval(&mut vm, "marker undo-all");
    let text = text.replace("{}", &"1+ ".repeat(n as usize));
    eval(&mut vm, &text);
    eval(&mut vm, "0 0 w");
    let o = obs(&mut vm);
    wk.trans(3 * n as u64 + 1);
    wk.trace();
    wk.state(H::new().s(&key));
    let want = f(n);
    if o.err != 0 || o.s != want || o.r != 0 {
        return fail(key, format!("expected {:?}, got {:?} error {} return stack {}", want, o.s, o.err, o.r));
    }
    reset(&mut vm);
    eval(&mut vm, "undo-all");
    wk.put_vm(vm);
    Ok(())
}

/// Structures nested d deep; the k-th condition (from outside) is false, the others true.
fn nested(wk: &mut Wk, i: u64) -> CaseResult {
    let kind = (i % 4) as usize;
    let d = (i / 4 % 60) as usize + 1;
    let k = (i / 240) as usize;
    // while and case take two entries of the control stack, which holds 64
    if k > d || (kind >= 2 && d > 31) {
        return Ok(());
    }
    let mut text = String::from(": w ");
    let mut want: Vec<isize> = vec![];
    for j in 0..d {
        let c = if j == k { 0 } else { -1 };
        text += &match kind {
            0 => format!("{} if swap 1+ swap ", c),
            1 => format!("{} if swap 1+ swap ", c),
            2 => format!("begin {} while swap 1+ swap ", c),
            _ => format!("{} case {} of swap 1+ swap ", c, -1),
        };
    }
    for j in (0..d).rev() {
        text += &match kind {
            0 => "then 1+ ".to_string(),
            1 => "else 100 + then 1+ ".to_string(),
            2 => "exit repeat 1+ ".to_string(),
            _ => "endof swap 1000 + swap endcase 1+ ".to_string(),
        };
        let _ = j;
    }
    text += ";";
    let run = k.min(d) as isize; // conditions that were true
    let dd = d as isize;
    let un = if k < d { 1 } else { 0 };
    want.extend(match kind {
        0 => [run, 1 + run - (1 - un)],
        1 => [run, 1 + run - (1 - un) + 100 * un],
        2 => [run, if k == d { 0 } else if k == 0 { 1 } else { 1 }],
        _ => [run, 1 + run - (1 - un) + 1000 * un],
    });
    let _ = dd;
    let mut vm = wk.take_vm();
    ready(&mut vm, 20000);
    let key = format!("kind {} nested {} deep, condition {} false", kind, d, k);
    wk.note(&key);
    eval(&mut vm, "marker undo-all");
    eval(&mut vm, &text);
    eval(&mut vm, "0 0 w");
    let o = obs(&mut vm);
    wk.trans(d as u64);
    wk.trace();
    wk.state(H::new().u(i));
    if o.err != 0 || o.s != want || o.r != 0 {
        return fail(key, format!("expected {:?}, got {:?} error {}", want, o.s, o.err));
    }
    reset(&mut vm);
    eval(&mut vm, "undo-all");
    wk.put_vm(vm);
    Ok(())
}

fn wide_case(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i / 64) as usize + 1;
    let x = (i % 64) as isize;
    if x > n as isize + 1 {
        return Ok(());
    }
    let mut text = String::from(": w case ");
    for k in 0..n {
        text += &format!("{} of {} endof ", k, k * 3 + 1000);
    }
    text += "1+ negate dup endcase 5 ;";
    let mut vm = wk.take_vm();
    ready(&mut vm, 30000);
    let key = format!("{} with {} branches", x, n);
    wk.note(&key);
    eval(&mut vm, "marker undo-all");
    eval(&mut vm, &text);
    reset(&mut vm);
    vm.s_stack().push(x);
    eval(&mut vm, "w");
    let o = obs(&mut vm);
    wk.trans(n as u64);
    wk.trace();
    wk.state(H::new().u(i));
    let want = if x < n as isize { vec![x * 3 + 1000, 5] } else { vec![-(x + 1), 5] };
    if o.err != 0 || o.s != want {
        return fail(key, format!("expected {:?}, got {:?} error {}", want, o.s, o.err));
    }
    reset(&mut vm);
    eval(&mut vm, "undo-all");
    wk.put_vm(vm);
    Ok(())
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![];
    let c = Count::new();
    let plan: &[(usize, usize)] = if t {
        &[(0, 4), (1, 10), (2, 10), (3, 9), (4, 8), (5, 3)]
    } else {
        &[(0, 4), (1, 8), (2, 8), (3, 7), (4, 4)]
    };
    for &(n, fuel) in plan {
        let total = c.b[0][n];
        scopes.push(Scope::new(
            &format!("all programs of {} nodes, all sequences of up to {} decisions", n, fuel),
            total,
            if n >= 4 { 2000 } else { 20 },
            move |wk, i| {
                thread_local!(static C: Count = Count::new());
                C.with(|c| program(wk, c, n, fuel, i, false))
            },
        ));
    }
    let nf = FORMS.len() as u64;
    // forms of conditions: all pairs of forms for small programs, one form at a time for larger ones
    for &(n, fuel, pairs) in if t { &[(1, 7, true), (2, 7, true), (3, 5, true), (4, 2, false)][..] } else { &[(1, 6, true), (2, 5, true), (3, 4, false)] } {
        let total = c.b[0][n];
        let k = if pairs { nf * nf } else { nf };
        scopes.push(Scope::new(
            &format!("all programs of {} nodes, conditions in {} forms, up to {} decisions", n, k, fuel),
            total * k,
            if n >= 3 { 2000 } else { 20 },
            move |wk, i| {
                thread_local!(static C: Count = Count::new());
                let f = i / total;
                let forms = if pairs { vec![(f / nf) as usize, (f % nf) as usize] } else { vec![f as usize] };
                C.with(|c| program_in(wk, c, n, fuel, i % total, &forms))
            },
        ));
    }
    scopes.push(Scope::new("bodies of every length up to 700 words, and longer ones up to what the data space holds", 830 * LONG.len() as u64, 8, long_body));
    scopes.push(Scope::new("every nesting depth up to 60, every place of the false condition", 4 * 60 * 61, 32, nested));
    scopes.push(Scope::new("case with up to 62 branches, every selector", 62 * 64, 64, wide_case));
    Property {
        id: "C05",
        assumptions: vec![
            "loops are cut off by an abort when the decision sequence runs out".into(),
            "counted loops use five fixed index ranges here; C07 enumerates the ranges".into(),
        ],
        scopes,
    }
}
