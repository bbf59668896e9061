//! C24: the data space is handed out without gaps or overlaps, down to the last byte.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;

/// Operations of the histories.  Values depend on the place in the history.
const OPS: usize = 24;

struct St {
    base: usize,         // address at which the history began
    bytes: Vec<Option<u8>>, // what the space from there on must hold; None: not specified
}

impl St {
    fn put(&mut self, b: &[u8]) {
        self.bytes.extend(b.iter().map(|x| Some(*x)));
    }
    fn align(&mut self) {
        while (self.base + self.bytes.len()) % 8 != 0 {
            self.bytes.push(None);
        }
    }
}

/// Text of operation `o` at place `k`, its effect on the model and the stack it must leave.
fn op(o: usize, k: usize, st: &mut St) -> (String, Vec<isize>) {
    let v = (k as isize + 1) * 0x0102_0304_0506_0711;
    let w = !v;
    let here = (st.base + st.bytes.len()) as isize;
    match o {
        0 | 1 | 2 => {
            let n = [1, 3, 16][o];
            for _ in 0..n {
                st.bytes.push(None);
            }
            (format!("{} allot", n), vec![])
        }
        3 | 4 => {
            // give back what is there, at most
            let n = [1, 9][o - 3].min(st.bytes.len());
            st.bytes.truncate(st.bytes.len() - n);
            (format!("-{} allot", n), vec![])
        }
        5 => ("0 allot".into(), vec![]),
        6 => {
            st.put(&v.to_ne_bytes());
            (format!("{} ,", v), vec![])
        }
        7 => {
            st.put(&[(k * 37 + 200) as u8]);
            (format!("{} c,", (k * 37 + 200) % 256), vec![])
        }
        8 => {
            st.put(&[0x5a]);
            (format!("{} c,", (k as isize + 3) << 8 | 0x5a), vec![])
        }
        9 => {
            st.put(&w.to_ne_bytes());
            st.put(&v.to_ne_bytes());
            (format!("{} {} 2,", v, w), vec![])
        }
        10 => {
            st.align();
            ("align".into(), vec![])
        }
        11 => {
            st.align();
            st.put(&(k as f64 + 0.5).to_ne_bytes());
            (format!("falign {}.5e f,", k), vec![])
        }
        12 => ("here".into(), vec![here]),
        13 => {
            // store into the space just taken
            for _ in 0..8 {
                st.bytes.push(None);
            }
            let n = st.bytes.len();
            for (j, b) in w.to_ne_bytes().iter().enumerate() {
                st.bytes[n - 8 + j] = Some(*b);
            }
            (format!("here 8 allot {} swap !", w), vec![])
        }
        14 => {
            // overwrite the first cell of the history, if it is there
            if st.bytes.len() >= 8 {
                for (j, b) in v.to_ne_bytes().iter().enumerate() {
                    st.bytes[j] = Some(*b);
                }
                (format!("{} {} !", v, st.base), vec![])
            } else {
                ("noop".into(), vec![])
            }
        }
        15 => {
            // scratch use of the free space keeps what is taken
            ("77 pad c! pad c@".into(), vec![77])
        }
        16 => {
            // move inside what is taken, overlapping
            let n = st.bytes.len();
            if n >= 3 {
                let src: Vec<_> = st.bytes[0..n - 1].to_vec();
                st.bytes[1..n].clone_from_slice(&src);
                (format!("{} {} {} move", st.base, st.base + 1, n - 1), vec![])
            } else {
                ("noop".into(), vec![])
            }
        }
        17 => {
            // fill all but the ends of what is taken
            let n = st.bytes.len();
            if n >= 3 {
                for b in &mut st.bytes[1..n - 1] {
                    *b = Some(0x41 + k as u8);
                }
                (format!("{} {} {} fill", st.base + 1, n - 2, 0x41 + k), vec![])
            } else {
                ("noop".into(), vec![])
            }
        }
        18 => {
            // requests that cannot be met change nothing
            ("max-n allot".into(), vec![])
        }
        19 => ("500000000 allot".into(), vec![]),
        20 | 21 | 22 | 23 => (String::new(), vec![]), // defining words: see below
        _ => panic!(),
    }
}

const DEFS: &[&str] = &["create {} {v} ,", ": {} {v} ;", "{v} constant {}", "variable {} {v} {} !"];

fn history(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    let ops = digits(i, OPS as u64, n);
    let mut vm = wk.take_vm();
    ready(&mut vm, 6000);
    let free = vm.data_space().here();
    eval(&mut vm, "marker undo-all : old 31 ;");
    let a = vm.data_space().here();
    let s0 = vm.data_space().start();
    // every history starts at another alignment
    let base = a + (i % 8) as usize;
    vm.data_space().set_here(base).unwrap();
    let before = mem(&mut vm)[..a - s0].to_vec();
    let mut st = St { base, bytes: vec![] };
    let mut names: Vec<(String, usize, isize)> = vec![];
    let mut done = vec![];
    let r = (|| {
        for (k, o) in ops.iter().enumerate() {
            reset(&mut vm);
            let h0 = vm.data_space().here();
            if *o >= 20 {
                let v = k as isize * 1000 + 17;
                let name = format!("nm{}", k % 3);
                let text = DEFS[*o - 20].replace("{}", &name).replace("{v}", &v.to_string());
                done.push(text.clone());
                let key = done.join(" | ");
                wk.note(&key);
                eval(&mut vm, &text);
                wk.trans(1);
                let h1 = vm.data_space().here();
                if err(&vm) != 0 || h1 <= h0 || h1 > h0 + 200 {
                    return fail(key, format!("error {} or {} bytes for a definition", err(&vm), h1 as isize - h0 as isize));
                }
                for b in &mem(&mut vm)[h0 - s0..h1 - s0] {
                    st.bytes.push(Some(*b));
                }
                if *o == 20 && (h1 % 8 != 0 || vm.find(&name).is_none()) {
                    return fail(key, "the body of a created word is not aligned");
                }
                names.retain(|x| x.0 != name);
                names.push((name, *o, v));
            } else {
                // a word's space is not given back by hand: only bytes above the latest word
                let keep = names.len();
                if (*o == 3 || *o == 4 || *o == 14 || *o == 16 || *o == 17) && keep > 0 {
                    continue;
                }
                let (text, want) = op(*o, k, &mut st);
                done.push(text.clone());
                let key = done.join(" | ");
                wk.note(&key);
                eval(&mut vm, &text);
                wk.trans(1);
                let o2 = obs(&mut vm);
                let want_err = if *o == 18 || *o == 19 { -8 } else { 0 };
                if o2.err != want_err || (want_err == 0 && o2.s != want) || o2.f.len() != 0 {
                    return fail(key, format!("expected error {} and {:?}, got {} and {:?}", want_err, want, o2.err, o2.s));
                }
                recover(&mut vm);
            }
            let key = done.join(" | ");
            let h = vm.data_space().here();
            if h != st.base + st.bytes.len() {
                return fail(key, format!("here is {} bytes off", h as isize - (st.base + st.bytes.len()) as isize));
            }
            let m = mem(&mut vm);
            for (j, b) in st.bytes.iter().enumerate() {
                if let Some(b) = b {
                    if m[base - s0 + j] != *b {
                        return fail(key, format!("byte {} of the space taken is {:02x}, not {:02x}", j, m[base - s0 + j], b));
                    }
                }
            }
            if m[..a - s0] != before[..] {
                // only the first cells, the system variables, may serve the words themselves
                return fail(key, "space taken before the history changed");
            }
        }
        let key = done.join(" | ");
        for (name, o, v) in &names {
            reset(&mut vm);
            eval(&mut vm, &if *o == 20 || *o == 23 { format!("{} @", name) } else { name.clone() });
            if vm.s_stack().as_slice() != [*v] {
                return fail(key, format!("{} is {:?}, not {}", name, vm.s_stack().as_slice(), v));
            }
        }
        // what a marker forgets is given back to the byte
        reset(&mut vm);
        let h = vm.data_space().here();
        eval(&mut vm, "marker nm7 variable nm8 7 nm8 ! nm7");
        if vm.data_space().here() != h || err(&vm) != 0 {
            return fail(key, format!("a marker gives back {} bytes too few, error {}", vm.data_space().here() as isize - h as isize, err(&vm)));
        }
        reset(&mut vm);
        eval(&mut vm, "old undo-all");
        if vm.s_stack().as_slice() != [31] || err(&vm) != 0 {
            return fail(key, "the system does not work after the history");
        }
        if vm.data_space().here() != free {
            return fail(key, "the space of the history is not given back");
        }
        Ok(())
    })();
    wk.state(H::new().u(i));
    wk.trace();
    if r.is_ok() {
        wk.put_vm(vm);
    }
    r
}

/// Texts that take space, each run with every number of bytes left.
/// (text, bytes it takes if that is exactly known, what shows that it worked)
const TAKERS: &[(&str, usize, &str)] = &[
    ("1 allot", 1, ""),
    ("8 allot", 8, ""),
    ("100 allot", 100, ""),
    ("5 ,", 8, "here 8 - @ 5 ="),
    ("5 c,", 1, "here 1- c@ 5 ="),
    ("5 6 2,", 16, "here 16 - 2@ 6 = swap 5 = and"),
    ("1 , 2 , 3 ,", 24, "here 24 - @ here 16 - @ + here 8 - @ + 6 ="),
    ("falign", 0, "1"),
    ("align", 0, "1"),
    ("variable x", usize::MAX, "x @ 0="),
    ("create x", usize::MAX, "x here ="),
    ("create x 1 , 2 , 3 ,", usize::MAX, "x 2@ 1 = swap 2 = and"),
    ("7 constant x", usize::MAX, "x 7 ="),
    ("7 8 2constant x", usize::MAX, "x 8 = swap 7 = and"),
    ("2variable x", usize::MAX, "x 2@ or 0="),
    ("1.5e fconstant x", usize::MAX, "x 1.5e f- f0="),
    ("fvariable x", usize::MAX, "x f@ f0="),
    (": x 1 2 3 + + ;", usize::MAX, "x 6 ="),
    (": x 0 10 0 do i + loop ;", usize::MAX, "x 45 ="),
    (": x dup if 1 else 2 then + ; ", usize::MAX, "5 x 6 ="),
    (": x case 1 of 10 endof 2 of 20 endof 30 swap endcase ;", usize::MAX, "2 x 20 ="),
    (": x s\" some text here\" ; ", usize::MAX, "x nip 14 ="),
    (": x .\" some\" ; ", usize::MAX, "1"),
    (": x 1.5e 2.5e f+ ;", usize::MAX, "x 4e f- f0="),
    (": x [ 5 ] literal ;", usize::MAX, "x 5 ="),
    (": x begin 1- dup 0= until ;", usize::MAX, "5 x 0="),
    (": x ['] noop drop [char] a ;", usize::MAX, "x 97 ="),
    (": x [ 1 ] goto 9 [ 1 ] label 7 ; 0labels ", usize::MAX, ""),
    ("defer x ", usize::MAX, "x 1"),
    ("0 1 cells +field x", usize::MAX, "8 = 3 x 3 = and"),
    ("marker x", usize::MAX, "' x 0= 0="),
    (": x create , does> @ ;", usize::MAX, "1"),
    (": a-name-of-forty-characters-or-more-letters 1 ;", usize::MAX, "a-name-of-forty-characters-or-more-letters 1 ="),
    ("9 mk x", usize::MAX, "x 9 ="),
];

/// `k` bytes are left when the text runs.
fn full(wk: &mut Wk, ti: usize, k: usize) -> CaseResult {
    let (text, size, check) = TAKERS[ti];
    let mut vm = wk.take_vm();
    if room(&mut vm) < 20000 {
        vm = new_vm();
    }
    reset(&mut vm);
    let key = format!("{} bytes left | {}", k, text);
    wk.note(&key);
    eval(&mut vm, "marker undo-all variable keep 77 keep ! : old keep @ ; : mk create , does> @ ;");
    let words0 = vm.wordlist().len();
    let s0 = vm.data_space().start();
    let l = vm.data_space().limit();
    let h0 = l - k;
    let r = (|| {
        let n = h0 - vm.data_space().here();
        eval(&mut vm, &format!("{} allot", n));
        if err(&vm) != 0 || vm.data_space().here() != h0 {
            return fail(key.as_str(), format!("allot of all but {} bytes failed with {}", k, err(&vm)));
        }
        clear_out(&mut vm);
        let before = mem(&mut vm)[..h0 - s0].to_vec();
        eval(&mut vm, text);
        let e = err(&vm);
        wk.trans(1);
        wk.trace();
        let h1 = vm.data_space().here();
        wk.state(H::new().u(ti as u64).u(k as u64).i(e).u((h1 - h0) as u64));
        if e != 0 && e != -8 {
            return fail(key.as_str(), format!("expected success or -8, got {}", e));
        }
        if size != usize::MAX {
            if e != if size <= k { 0 } else { -8 } {
                return fail(key.as_str(), format!("{} bytes asked, {} left: error {}", size, k, e));
            }
            let took = if text.ends_with("align") { (8 - h0 % 8) % 8 } else { size };
            let room_ok = h0 + took <= l;
            if e == 0 && room_ok && h1 != h0 + took {
                return fail(key.as_str(), format!("took {} bytes", h1 as isize - h0 as isize));
            }
        } else if k >= 1000 && e != 0 {
            return fail(key.as_str(), format!("a definition that fits fails with {}", e));
        }
        if h1 > l || h1 < h0 {
            return fail(key.as_str(), "the free-space pointer left the free space");
        }
        if mem(&mut vm)[..h0 - s0] != before[..] {
            return fail(key.as_str(), "space taken before changed");
        }
        if e == 0 && check != "" {
            eval(&mut vm, check);
            let o = obs(&mut vm);
            if o.err != 0 || o.s.last().map_or(true, |x| *x == 0) {
                return fail(key.as_str(), format!("{:?} gives {:?} error {}", check, o.s, o.err));
            }
        }
        recover(&mut vm);
        reset(&mut vm);
        if e != 0 && text.starts_with(':') && vm.find(text.split(' ').nth(1).unwrap()).is_some() {
            return fail(key.as_str(), "the unfinished definition is visible");
        }
        eval(&mut vm, "old keep @ + undo-all");
        if err(&vm) != 0 || vm.s_stack().as_slice() != [154] {
            return fail(key.as_str(), "older words do not work");
        }
        if vm.wordlist().len() >= words0 {
            return fail(key.as_str(), "the marker left words");
        }
        reset(&mut vm);
        eval(&mut vm, "marker undo : again 3 4 + ; create arr 100 cells allot 5 arr 99 cells + ! again arr 99 cells + @ undo");
        if err(&vm) != 0 || vm.s_stack().as_slice() != [7, 5] {
            return fail(key.as_str(), format!("the space given back is not usable: {:?} error {}", vm.s_stack().as_slice().to_vec(), err(&vm)));
        }
        Ok(())
    })();
    if r.is_ok() {
        wk.put_vm(vm);
    }
    r
}

/// Take the whole space in steps of one size; each step gets its own bytes; then -8.
fn steps(wk: &mut Wk, i: u64) -> CaseResult {
    let size = i as usize % 64 + 1;
    let how = i / 64;
    let mut vm = new_vm();
    reset(&mut vm);
    let step = match how {
        0 => format!("here {} allot drop", size),
        1 => format!("{}", "1 c, ".repeat(size)),
        2 => format!("{}", "1 , ".repeat((size + 7) / 8)),
        _ => format!("{}", "1 2 2, ".repeat((size + 15) / 16)),
    };
    let unit = match how {
        0 => size,
        1 => 1,
        2 => 8,
        _ => 16,
    };
    let per = match how {
        0 => size,
        1 => size,
        2 => (size + 7) / 8 * 8,
        _ => (size + 15) / 16 * 16,
    };
    let key = format!("take all the space, `{}` by `{}`", per, &step[..step.len().min(20)]);
    wk.note(&key);
    eval(&mut vm, &format!("variable n : all begin {} 1 n +! again ;", step));
    let free = room(&mut vm);
    eval(&mut vm, "all");
    let e = err(&vm);
    recover(&mut vm);
    reset(&mut vm);
    let left = room(&mut vm);
    eval(&mut vm, "n @");
    let n = vm.s_stack().as_slice().to_vec();
    wk.trans((free / per) as u64);
    wk.trace();
    wk.state(H::new().u(i));
    if e != -8 || n != [(free / per) as isize] || left != free % unit {
        return fail(key, format!("{} free: error {}, {:?} steps, {} bytes left", free, e, n, left));
    }
    eval(&mut vm, &format!("-{} allot : x 5 ; x", 1000));
    if err(&vm) != 0 || vm.s_stack().as_slice().last() != Some(&5) {
        return fail(key, "space given back is not usable");
    }
    Ok(())
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![];
    for n in 1..=(if t { 5 } else { 4 }) {
        scopes.push(Scope::new(
            &format!("all histories of {} requests", n),
            (OPS as u64).pow(n as u32),
            128,
            move |wk, i| history(wk, n, i),
        ));
    }
    let kmax: u64 = if t { 2200 } else { 1100 };
    scopes.push(Scope::new(
        "every request with every number of bytes left",
        TAKERS.len() as u64 * kmax,
        64,
        move |wk, i| full(wk, (i / kmax) as usize, (i % kmax) as usize),
    ));
    scopes.push(Scope::new("all the space in steps of 1..64 bytes", 256, 2, steps));
    Property {
        id: "C24",
        assumptions: vec![
            "f, is used at aligned places only, and only bytes above the latest word are given back".into(),
            "a definition needs some bytes more than it takes; it must succeed when 1000 bytes are left".into(),
        ],
        scopes,
    }
}
