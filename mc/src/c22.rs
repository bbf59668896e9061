//! C22: loading source: every line of a file once, in order, without its ending; nested
//! loads resume right behind the request; a failed load does not spoil later ones.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use std::collections::BTreeMap;

struct Bench {
    vm: VM,
    dir: String,
    buf: usize,
    w: BTreeMap<&'static str, usize>,
}

const NAMES: [&str; 3] = ["a", "b", "c"];

impl Bench {
    fn new(dir: &str) -> Bench {
        let mut vm = new_vm();
        reset(&mut vm);
        let mut w = BTreeMap::new();
        for n in &["open-file", "open-source", "load-line", ".source-line", ".source-path", "close-source", "source-id!", "source-id", "close-file", "load-line#"] {
            w.insert(*n, vm.find(n).expect(n));
        }
        use rtforth::memory::Memory;
        let buf = vm.data_space().here() + 8;
        // a few words for the texts below
        eval(
            &mut vm,
            &"1024 allot : line# load-line# @ ; : inc s\" ~/a\" included ; \
             : inc2 1 s\" ~/a\" included 2 ; : incb s\" ~/b\" included ; variable deep"
                .replace("~", dir),
        );
        assert_eq!(err(&vm), 0);
        Bench { vm, dir: dir.to_string(), buf, w }
    }
    fn clean(&mut self) {
        for t in 0..5 {
            self.vm.set_current_task(t);
            self.vm.files_mut().clear();
            self.vm.sources_mut().clear();
            self.vm.lines_mut().clear();
            self.vm.state().source_id = 0;
        }
        reset(&mut self.vm);
        eval(&mut self.vm, "0 src-stack cell+ ! 0 load-line# !");
        reset(&mut self.vm);
    }
    fn call(&mut self, name: &str, args: &[isize]) -> Vec<isize> {
        for a in args {
            self.vm.s_stack().push(*a);
        }
        let xt = self.w[name];
        self.vm.execute_word(xt);
        self.vm.run();
        let v = self.vm.s_stack().as_slice().to_vec();
        self.vm.s_stack().reset();
        v
    }
    /// Error of the last call, cleared.
    fn error(&mut self) -> isize {
        let e = err(&self.vm);
        if e != 0 {
            // what `bye` as a handler leaves
            self.vm.set_error(None);
            self.vm.r_stack().reset();
            self.vm.state().instruction_pointer = 0;
        }
        e
    }
    fn path(&self, n: &str) -> String {
        format!("{}/{}", self.dir, n)
    }
    fn write(&self, n: &str, text: &[u8]) {
        std::fs::write(self.path(n), text).unwrap();
    }
    /// open-file read-only; the id
    fn open(&mut self, n: &str) -> isize {
        let p = self.path(n);
        let a = self.buf;
        poke(&mut self.vm, a, p.as_bytes());
        let r = self.call("open-file", &[a as isize, p.len() as isize, 0]);
        if r.len() == 2 && r[1] == 0 {
            r[0]
        } else {
            0
        }
    }
}

fn bench(wk: &mut Wk) -> Bench {
    let mut b = match wk.store.remove(&0) {
        Some(b) => *b.downcast::<Bench>().unwrap(),
        None => Bench::new(&wk.scratch.clone()),
    };
    if room(&mut b.vm) < 16384 {
        b = Bench::new(&wk.scratch.clone());
    }
    b.clean();
    b
}

/// The lines of a file: text and length, without line endings.
fn lines(text: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut rest = text;
    while !rest.is_empty() {
        match rest.iter().position(|c| *c == b'\n') {
            Some(p) => {
                let mut l = &rest[..p];
                if l.ends_with(b"\r") {
                    l = &l[..p - 1];
                }
                v.push(l.to_vec());
                rest = &rest[p + 1..];
            }
            None => {
                v.push(rest.to_vec());
                rest = &[];
            }
        }
    }
    v
}

/// Load a whole file line by line.
fn load_all(wk: &mut Wk, text: &[u8], key: String, skip: usize) -> CaseResult {
    let mut b = bench(wk);
    wk.note(&key);
    b.write("a", text);
    let id = b.open("a");
    if id != 1 {
        return fail(key, format!("open-file gives id {}", id));
    }
    if skip > 0 {
        // a source starts where the file stands
        use std::io::{Seek, SeekFrom};
        b.vm.files_mut()[0].as_mut().unwrap().seek(SeekFrom::Start(skip as u64)).unwrap();
    }
    let a = b.buf as isize;
    let p = b.path("a");
    let sid = b.call("open-source", &[a, p.len() as isize, id]);
    if sid != [1] || err(&b.vm) != 0 {
        return fail(key, format!("open-source gives {:?}, error {}", sid, err(&b.vm)));
    }
    if b.call("close-file", &[id]) != [-24] {
        return fail(key, "the file still belongs to the file words");
    }
    clear_out(&mut b.vm);
    b.call(".source-path", &[1]);
    if out(&mut b.vm) != p {
        return fail(key, format!("path {:?}, expected {:?}", out(&mut b.vm), p));
    }
    for (k, l) in lines(&text[skip.min(text.len())..]).iter().enumerate() {
        let good = std::str::from_utf8(l);
        let r = b.call("load-line", &[1]);
        wk.trans(1);
        wk.state(H::new().u(k as u64).s(&String::from_utf8_lossy(l)));
        match good {
            Ok(s) => {
                if r != [l.len() as isize, -1] || err(&b.vm) != 0 {
                    return fail(key, format!("line {}: got {:?} error {}, expected {} bytes", k, r, err(&b.vm), l.len()));
                }
                clear_out(&mut b.vm);
                b.call(".source-line", &[1]);
                if out(&mut b.vm) != s {
                    return fail(key, format!("line {} is {:?}, expected {:?}", k, out(&mut b.vm), s));
                }
            }
            Err(_) => {
                // not a text: an I/O error, nothing on the stack
                if r != [] || b.error() != -37 {
                    return fail(key, format!("line {} is not UTF-8: got {:?}", k, r));
                }
            }
        }
    }
    for _ in 0..2 {
        let r = b.call("load-line", &[1]);
        if r != [0, 0] || err(&b.vm) != 0 {
            return fail(key, format!("at the end: {:?} error {}", r, err(&b.vm)));
        }
    }
    b.call("close-source", &[1]);
    let e = b.error();
    b.call("load-line", &[1]);
    let e2 = b.error();
    b.call("close-source", &[1]);
    if e != 0 || e2 != -24 || b.error() != -24 {
        return fail(key, "closing");
    }
    wk.trace();
    wk.store.insert(0, Box::new(b));
    Ok(())
}

fn texts(wk: &mut Wk, i: u64, n: usize) -> CaseResult {
    let sym: [&str; 5] = ["x", " ", "\n", "\r", "é"];
    let t: String = digits(i, 5, n).into_iter().map(|d| sym[d]).collect();
    load_all(wk, t.as_bytes(), format!("{:?}", t), 0)
}

fn bytes(wk: &mut Wk, i: u64) -> CaseResult {
    let sym: [u8; 7] = [b'x', b'\n', 0, 0xff, 0xc3, 0xa9, b'\r'];
    let t: Vec<u8> = digits(i, 7, 5).into_iter().map(|d| sym[d]).collect();
    load_all(wk, &t, format!("bytes {:02x?}", t), 0)
}

fn long(wk: &mut Wk, i: u64) -> CaseResult {
    let around = [0usize, 1, 2, 126, 127, 128, 129, 1022, 1023, 1024, 1025, 4095, 4096, 8190, 8191, 8192, 8193, 8194, 16383, 16384, 16385, 20000];
    let n = around.len() as u64;
    let (a, b) = (around[(i % n) as usize], around[(i / n % n) as usize]);
    let end = ["\n", "\r\n"][(i / n / n % 2) as usize];
    let last = ["", "\n", "\r\n", "\r"][(i / n / n / 2 % 4) as usize];
    let fill = ["x", "é"][(i / n / n / 8) as usize];
    let t = format!("{}{}{}{}", fill.repeat(a), end, fill.repeat(b), last);
    load_all(wk, t.as_bytes(), format!("lines of {} and {} times {:?}, endings {:?} {:?}", a, b, fill, end, last), 0)
}

/// Many lines: the number of a line is right however many went before.
fn many_lines(wk: &mut Wk, i: u64) -> CaseResult {
    let n = [255usize, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000][(i / 4) as usize];
    let end = ["\n", "\r\n", "x\n", "1 drop\r\n"][(i % 4) as usize];
    let t = end.repeat(n);
    load_all(wk, t.as_bytes(), format!("{} lines {:?}", n, end), 0)
}

/// A file of many lines is loaded; a line far on fails, or looks at its number.
fn many_loaded(wk: &mut Wk, i: u64) -> CaseResult {
    let n = [300usize, 1000, 33000, 66000][(i % 4) as usize];
    let line = ["", "1 drop", ": x 5\n 6 ;"][(i / 4 % 3) as usize];
    let last = ["load-line# @", "nope", ".( x) 7 nope 8"][(i / 12 % 3) as usize];
    let mut b = bench(wk);
    reset(&mut b.vm);
    let per = line.lines().count().max(1);
    let k = n / per;
    let t = format!("{}{}\n77\n", format!("{}\n", line).repeat(k), last);
    let p = b.dir.clone() + "/long";
    std::fs::write(&p, &t).unwrap();
    let key = format!("{} lines of {:?}, then {:?}", k, line, last);
    wk.note(&key);
    eval(&mut b.vm, "marker undo-all");
    // the handler keeps the number of the line that failed
    eval(&mut b.vm, "variable at-line variable code : bad-line error code ! load-line# @ at-line ! 0error reset bye ; ' bad-line handler!");
    let room0 = room(&mut b.vm);
    if line.contains(':') && room0 < k * 80 {
        b.vm = new_vm();
        std::fs::remove_file(&p).unwrap();
        wk.store.insert(0, Box::new(b));
        return Ok(());
    }
    clear_out(&mut b.vm);
    eval(&mut b.vm, &format!("include {} ", p));
    let o = obs(&mut b.vm);
    b.vm.s_stack().reset();
    eval(&mut b.vm, "at-line @ code @");
    let h = obs(&mut b.vm).s;
    std::fs::remove_file(&p).unwrap();
    wk.trans(n as u64);
    wk.trace();
    wk.state(H::new().u(i));
    let at = (k * per + 1) as isize;
    let ok = if last == "load-line# @" { o.s == [at, 77] && h == [0, 0] } else { h == [at, -13] && o.s.is_empty() };
    if !ok {
        return fail(key, format!("stack {:?}, error {}, the handler saw {:?}; expected line {}", o.s, o.err, h, at));
    }
    // a fresh machine for the next one
    b.vm = new_vm();
    wk.store.insert(0, Box::new(b));
    Ok(())
}

fn middle(wk: &mut Wk, i: u64) -> CaseResult {
    let sym: [&str; 3] = ["x", "\n", "\r"];
    let t: String = digits(i / 8, 3, 6).into_iter().map(|d| sym[d]).collect();
    load_all(wk, t.as_bytes(), format!("{:?} from {}", t, i % 8), (i % 8) as usize)
}

/// Histories of the source words on two files, against a model of both tables.
#[derive(Clone, Copy, Debug)]
enum Op {
    Open(usize),
    Source(isize),
    Load(isize),
    Close(isize),
    Set(isize),
    Id,
    CloseFile(isize),
    Show(isize),
    Task(usize),
}
use Op::*;

const TEXT: [&str; 2] = ["one\ntwo\r\n\nfour", "erste\n"];

#[derive(Clone, Default)]
struct Task_ {
    files: Vec<Option<usize>>,
    src: Vec<Option<(usize, usize, Option<String>)>>,
    cur: isize,
}

fn slot<T>(v: &mut Vec<Option<T>>, x: T) -> isize {
    let k = v.iter().position(|y| y.is_none()).unwrap_or_else(|| {
        v.push(None);
        v.len() - 1
    });
    v[k] = Some(x);
    k as isize + 1
}

fn history(wk: &mut Wk, ops: &[Op]) -> CaseResult {
    let mut b = bench(wk);
    let key = format!("{:?}", ops);
    wk.note(&key);
    b.write("a", TEXT[0].as_bytes());
    b.write("b", TEXT[1].as_bytes());
    let mut tasks = [Task_::default(), Task_::default()];
    let mut cur = 0;
    for (k, op) in ops.iter().enumerate() {
        clear_out(&mut b.vm);
        let t = &mut tasks[cur];
        let get = |v: &Vec<Option<(usize, usize, Option<String>)>>, id: isize| -> Option<(usize, usize, Option<String>)> {
            if id < 1 {
                None
            } else {
                v.get(id as usize - 1).cloned().flatten()
            }
        };
        let mut text = Some(String::new());
        let (want, e): (Vec<isize>, isize) = match *op {
            Open(f) => (vec![slot(&mut t.files, f)], 0),
            CloseFile(id) => {
                let ok = id >= 1 && t.files.get(id as usize - 1).map_or(false, |x| x.is_some());
                if ok {
                    t.files[id as usize - 1] = None;
                }
                (vec![if ok { 0 } else { -24 }], 0)
            }
            Source(id) => {
                let f = if id < 1 { None } else { t.files.get_mut(id as usize - 1).and_then(|x| x.take()) };
                match f {
                    Some(f) => (vec![slot(&mut t.src, (f, 0, None))], 0),
                    None => (vec![], -24),
                }
            }
            Load(id) => match get(&t.src, id) {
                Some((f, n, _)) => {
                    let l = lines(TEXT[f].as_bytes());
                    let (r, line) = if n < l.len() {
                        (vec![l[n].len() as isize, -1], String::from_utf8(l[n].clone()).unwrap())
                    } else {
                        (vec![0, 0], String::new())
                    };
                    t.src[id as usize - 1] = Some((f, n + 1, Some(line)));
                    (r, 0)
                }
                None => (vec![], -24),
            },
            Close(id) => {
                if id == t.cur || get(&t.src, id).is_none() {
                    (vec![], -24)
                } else {
                    t.src[id as usize - 1] = None;
                    (vec![], 0)
                }
            }
            Set(id) => {
                if id == 0 || get(&t.src, id).is_some() {
                    t.cur = id;
                    (vec![], 0)
                } else {
                    (vec![], -24)
                }
            }
            Id => (vec![t.cur], 0),
            Show(id) => match get(&t.src, id) {
                Some((f, _, line)) => {
                    text = line.map(|l| format!("{}|{}", b.path(NAMES[f]), l));
                    (vec![], 0)
                }
                None => {
                    text = None;
                    (vec![], -24)
                }
            },
            Task(n) => {
                cur = n;
                (vec![], 0)
            }
        };
        let got = match *op {
            Open(f) => vec![b.open(NAMES[f])],
            CloseFile(id) => b.call("close-file", &[id]),
            Source(id) => {
                // the path goes with the file
                let f = if want.is_empty() {
                    0
                } else {
                    tasks[cur].src[want[0] as usize - 1].as_ref().unwrap().0
                };
                let p = b.path(NAMES[f]);
                let a = b.buf;
                poke(&mut b.vm, a, p.as_bytes());
                b.call("open-source", &[a as isize, p.len() as isize, id])
            }
            Load(id) => b.call("load-line", &[id]),
            Close(id) => b.call("close-source", &[id]),
            Set(id) => b.call("source-id!", &[id]),
            Id => b.call("source-id", &[]),
            Show(id) => {
                let mut v = b.call(".source-path", &[id]);
                if err(&b.vm) == 0 {
                    b.vm.output_buffer().as_mut().unwrap().push('|');
                    v.extend(b.call(".source-line", &[id]));
                }
                v
            }
            Task(n) => {
                b.vm.set_current_task(n);
                vec![]
            }
        };
        wk.trans(1);
        let mut h = H::new().u(cur as u64);
        for t in &tasks {
            h = h.i(t.cur);
            for f in &t.files {
                h = h.u(f.map(|x| x as u64 + 1).unwrap_or(0));
            }
            h = h.u(55);
            for s in &t.src {
                h = h.u(s.as_ref().map(|x| 1 + x.0 as u64 + 10 * x.1 as u64).unwrap_or(0));
            }
        }
        wk.state(h);
        let o = out(&mut b.vm);
        let ge = b.error();
        if got != want || ge != e || (text.is_some() && Some(&o) != text.as_ref()) {
            return fail(key, format!("operation {} {:?}: got {:?} error {} {:?}, expected {:?} error {} {:?}", k, op, got, ge, o, want, e, text));
        }
    }
    wk.trace();
    wk.store.insert(0, Box::new(b));
    Ok(())
}

fn histories(name: &str, pre: Vec<Op>, ops: Vec<Op>, depth: usize) -> Scope {
    let n = ops.len() as u64;
    Scope::new(name, n.pow(depth as u32), 512, move |wk, i| {
        let mut h = pre.clone();
        h.extend(digits(i, n, depth).into_iter().map(|d| ops[d]));
        history(wk, &h)
    })
}

/// A small model of interpretation: numbers, definitions over several lines, comments and
/// nested loading.
#[derive(Clone, Copy)]
enum Word {
    Num(isize),
    Name(&'static str),
}

#[derive(Default)]
struct Model {
    stack: Vec<isize>,
    dict: BTreeMap<String, Vec<Word>>,
    def: Option<(String, Vec<Word>)>,
    /// open sources
    open: Vec<bool>,
    /// active sources: (id, line number)
    active: Vec<(isize, isize)>,
    under: bool,
    steps: u64,
    dir: String,
}

impl Model {
    fn file(&mut self, fs: &BTreeMap<String, String>, n: &str) -> Result<(), isize> {
        let text = match fs.get(n) {
            Some(t) => t,
            None => return Err(-1),
        };
        if self.active.len() >= 15 {
            return Err(DEEP);
        }
        let k = self.open.iter().position(|x| !x).unwrap_or_else(|| {
            self.open.push(false);
            self.open.len() - 1
        });
        self.open[k] = true;
        self.active.push((k as isize + 1, 1));
        // a load starts interpreting; a definition that was open stays unfinished
        self.def = None;
        for l in lines(text.as_bytes()) {
            let l = String::from_utf8(l).unwrap();
            if self.text(fs, &l)? {
                break;
            }
            self.active.last_mut().unwrap().1 += 1;
        }
        self.active.pop();
        self.open[k] = false;
        Ok(())
    }
    /// Execute one word; it may take more of the line.
    fn word(&mut self, fs: &BTreeMap<String, String>, w: &Word, toks: &mut dyn Iterator<Item = &str>, skip: &mut bool) -> Result<(), isize> {
        let w = match w {
            Word::Num(n) => {
                self.stack.push(*n);
                return Ok(());
            }
            Word::Name(w) => *w,
        };
        match w {
            "\\\\" => {
                // all further lines; the rest of this line is gone as well
                if self.active.is_empty() {
                    return Err(-24);
                }
                *skip = true;
                while toks.next().is_some() {}
            }
            "include" => {
                let n = match toks.next() {
                    Some(n) if !*skip => n.to_string(),
                    // an empty name names no file
                    _ => return Err(-1),
                };
                self.file(fs, &n)?
            }
            "inc" => self.file(fs, &format!("{}/a", self.dir))?,
            "incb" => self.file(fs, &format!("{}/b", self.dir))?,
            "inc2" => {
                self.stack.push(1);
                self.file(fs, &format!("{}/a", self.dir))?;
                self.stack.push(2);
            }
            "line#" => self.stack.push(self.active.last().map_or(0, |x| x.1)),
            "source-id" => self.stack.push(self.active.last().map_or(0, |x| x.0)),
            _ => {
                if self.stack.len() < 2 {
                    self.under = true;
                    self.stack.clear();
                } else {
                    let b = self.stack.pop().unwrap();
                    *self.stack.last_mut().unwrap() += b;
                }
            }
        }
        Ok(())
    }
    /// Ok(true): the rest of the file is skipped
    fn text(&mut self, fs: &BTreeMap<String, String>, l: &str) -> Result<bool, isize> {
        let mut toks = l.split(|c| c == ' ' || c == '\r' || c == '\t').filter(|t| !t.is_empty());
        let mut skip = false;
        while let Some(t) = toks.next() {
            self.steps += 1;
            if t == "\\" {
                break;
            }
            if t == "(" {
                while let Some(t) = toks.next() {
                    if t.ends_with(')') {
                        break;
                    }
                }
                continue;
            }
            let words = if let Some(v) = self.dict.get(t) {
                v.clone()
            } else if let Ok(n) = t.parse::<isize>() {
                vec![Word::Num(n)]
            } else {
                let b = ["\\\\", "include", "inc", "incb", "inc2", "line#", "source-id", "+", ":", ";"];
                match b.iter().find(|x| **x == t) {
                    Some(x) => vec![Word::Name(x)],
                    None => return Err(-13),
                }
            };
            if let Some(d) = &mut self.def {
                if t == ";" {
                    let d = self.def.take().unwrap();
                    self.dict.insert(d.0, d.1);
                } else {
                    d.1.extend(words);
                }
                continue;
            }
            match t {
                ":" => match toks.next() {
                    Some(n) => self.def = Some((n.to_string(), vec![])),
                    None => return Err(-39),
                },
                ";" => return Err(-14),
                _ => {
                    for w in &words {
                        self.word(fs, w, &mut toks, &mut skip)?;
                    }
                }
            }
            if self.under {
                return Err(-4);
            }
        }
        Ok(skip)
    }
    /// What the terminal sees after a line.
    fn terminal(&mut self, fs: &BTreeMap<String, String>, l: &str) -> isize {
        match self.text(fs, l) {
            Ok(_) => 0,
            Err(e) => {
                self.stack.clear();
                self.def = None;
                self.active.clear();
                self.under = false;
                e
            }
        }
    }
}

/// Enter lines at the terminal, with the given files, and compare.
fn session(wk: &mut Wk, fs: &BTreeMap<String, String>, input: &[String], key: String) -> CaseResult {
    let mut b = bench(wk);
    wk.note(&key);
    let here = |t: &str| t.replace("include ", &format!("include {}/", b.dir));
    let fs: BTreeMap<String, String> = fs.iter().map(|(n, t)| (b.path(n), here(t))).collect();
    let fs = &fs;
    let input: Vec<String> = input.iter().map(|l| here(l)).collect();
    for (n, t) in fs {
        std::fs::write(n, t).unwrap();
    }
    eval(&mut b.vm, "marker undo");
    let mut m = Model { dir: b.dir.clone(), ..Model::default() };
    let mut res = Ok(());
    let mut keep: Vec<isize> = vec![];
    for l in &input {
        let want = m.terminal(fs, l);
        let a = b.call("load-line#", &[]);
        // the line number means something while a file is being loaded only
        use rtforth::memory::Memory;
        unsafe { b.vm.data_space().put_isize(0, *a.last().unwrap() as usize) };
        for x in &keep {
            b.vm.s_stack().push(*x);
        }
        eval(&mut b.vm, l);
        let o = obs(&mut b.vm);
        // too deep: the stack of sources or the return stack overflows
        if want == DEEP && (o.err == -1 || o.err == -5) {
            m.open = b.vm.sources().iter().map(|x| x.is_some()).collect();
        } else if o.err != want {
            res = fail(key.clone(), format!("{:?}: error {}, expected {}", l, o.err, want));
            break;
        }
        if want != 0 {
            recover(&mut b.vm);
            keep.clear();
        } else if o.s != m.stack || o.compiling != m.def.is_some() {
            res = fail(key.clone(), format!("{:?}: stack {:?} compiling {}, expected {:?} {}", l, o.s, o.compiling, m.stack, m.def.is_some()));
            break;
        }
        if b.vm.state().source_id != 0 || (want == 0 && b.vm.sources().iter().filter(|x| x.is_some()).count() != m.open.iter().filter(|x| **x).count()) {
            res = fail(key.clone(), format!("{:?}: wrong source current, or {} slots", l, b.vm.sources().len()));
            break;
        }
        if want == 0 {
            keep = o.s.clone();
        }
        wk.state(H::new().sl(&m.stack).u(m.open.len() as u64).i(want));
    }
    for n in fs.keys() {
        let _ = std::fs::remove_file(n);
    }
    res?;
    wk.trans(m.steps);
    wk.trace();
    reset(&mut b.vm);
    eval(&mut b.vm, "undo");
    reset(&mut b.vm);
    wk.store.insert(0, Box::new(b));
    Ok(())
}

const DEEP: isize = 1;

/// Lines of the outer file.
const LINES: &[&str] = &[
    "", "7", "  8 9  ", "1 \\ 2", "( 3 ) 4", ": w 5", "6 ;", "w", "include b 10", "include b", "11 incb 12", "line# source-id", "\\\\ 13", "+", "nope 14",
];
const INNER: &[&str] = &["", "20\n", ": v 21\n 22 ;\nv\nline# source-id", "23 \\\\\n24", "25\n25 nope\n26", "27\n include c 28\n29\n", "30\n\n: x", "31\r\nline#\r\n32"];
const ENDS: &[&str] = &["\n", "\r\n", ""];

fn nested(wk: &mut Wk, i: u64, n: usize) -> CaseResult {
    let nl = LINES.len() as u64;
    let ls = digits(i / 48, nl, n);
    let inner = INNER[(i % 8) as usize];
    let end = ENDS[(i / 8 % 3) as usize];
    let how = i / 24 % 2;
    let mut a = String::new();
    for (k, d) in ls.iter().enumerate() {
        a += LINES[*d];
        if k + 1 < n || end != "" {
            a += if end == "\r\n" { end } else { "\n" };
        }
    }
    let mut fs = BTreeMap::new();
    fs.insert("a".to_string(), a.clone());
    fs.insert("b".to_string(), inner.to_string());
    fs.insert("c".to_string(), "40 line# source-id\n41".to_string());
    let first = ["include a 77 source-id", "5 inc2 77 source-id"][how as usize];
    let key = format!("a={:?} b={:?} terminal {:?}", a, inner, first);
    session(wk, &fs, &[first.to_string(), "w 78".to_string(), ";".to_string(), "include c 79".to_string()], key)
}

/// Chains of files, with a fault at every depth; then repeated, then a good load.
fn chain(wk: &mut Wk, i: u64) -> CaseResult {
    let depth = (i % 20) as usize + 1;
    let fault = (i / 20 % 21) as usize + 1; // at this depth, 21: none
    let times = [1usize, 2, 20, 40][(i / 20 / 21 % 4) as usize];
    let after = i / 20 / 21 / 4 % 2 == 1; // the fault comes after the nested load
    if fault > depth && fault != 21 {
        return Ok(());
    }
    let mut fs = BTreeMap::new();
    for d in 1..=depth {
        let mut t = format!("{}\nline#\n", 100 + d);
        if d == fault && !after {
            t += "1 nope\n";
        }
        if d < depth {
            t += &format!("{} include f{} line#\n", 200 + d, d + 1);
        }
        if d == fault && after {
            t += "2 nope 3\n";
        }
        t += "line# source-id + +\n";
        if d % 2 == 1 {
            t += "+ +";
        }
        fs.insert(format!("f{}", d), t);
    }
    fs.insert("good".to_string(), "1\ninclude good2 2\n3".to_string());
    fs.insert("good2".to_string(), "4\n5".to_string());
    let mut input = vec![];
    for _ in 0..times {
        input.push("include f1 999".to_string());
        if fault == 21 {
            // keep the stack small
            input.push("nope".to_string());
        }
    }
    input.push("include good 8".to_string());
    input.push("include missing 5".to_string());
    input.push("6 include good 7".to_string());
    let key = format!("chain of {} files, fault in file {} ({}), {} times", depth, fault, if after { "after" } else { "before" }, times);
    session(wk, &fs, &input, key)
}

/// Sessions of good and failing loads.
fn sessions(wk: &mut Wk, i: u64, n: usize) -> CaseResult {
    let ls = [
        "include good", "include bad", "include missing 1", "include twice 2", "include open", "5 ;", "w", "include outer source-id", "include half", "nope",
        "include badouter 3", "include skip 4",
    ];
    let mut fs = BTreeMap::new();
    for (n, t) in &[
        ("good", "1\n2 line#"),
        ("bad", "3\nnope\n4\n"),
        ("twice", "include good 5\ninclude good 6\n"),
        ("open", ": w 7\n8\n"),
        ("outer", "include good line#\ninclude skip line# source-id\n9"),
        ("half", ": w 9 nope"),
        ("badouter", "10\ninclude bad 11\n12"),
        ("skip", "13\n\\\\ 14\n15 nope\n"),
    ] {
        fs.insert(n.to_string(), t.to_string());
    }
    let mut input: Vec<String> = digits(i, 12, n.min(5)).into_iter().map(|d| ls[d].to_string()).collect();
    let mut key = format!("{:?}", input);
    if n > 5 {
        // three lines over and over; a fault clears the stack
        input.truncate(3);
        input.push("nope".into());
        key = format!("{} times {:?}", n, input);
        input = input.iter().cycle().take(n * 4).cloned().collect();
    }
    session(wk, &fs, &input, key)
}

/// Paths of every length, in a new and in a used slot: each source keeps its own path and line.
fn paths(wk: &mut Wk, i: u64) -> CaseResult {
    let n = 1 + (i / 3) as usize;
    let old = [1, 30, 300][i as usize % 3];
    let key = format!("paths of {} characters after {}", n, old);
    wk.note(&key);
    let mut b = bench(wk);
    let text = |c: u8, n: usize| -> String { (0..n).map(|k| if k % 10 == 9 { '/' } else { (c + (k % 17) as u8) as char }).collect() };
    let mut all: Vec<Option<(String, String)>> = vec![None; 3];
    for (step, (slot, len)) in [(0, n), (1, old), (2, n + 1), (1, n), (0, old), (2, old), (0, n + 2), (1, old + 1)].into_iter().enumerate() {
        if all[slot].is_some() {
            b.call("close-source", &[slot as isize + 1]);
            all[slot] = None;
        }
        let line = text(b'B', len);
        b.write("a", line.as_bytes());
        let id = b.open("a");
        let p = text(b'a' + step as u8, len);
        let a = b.buf;
        poke(&mut b.vm, a, p.as_bytes());
        let sid = b.call("open-source", &[a as isize, p.len() as isize, id]);
        // the text in memory is the caller's again
        poke(&mut b.vm, a, &vec![b'-'; p.len()]);
        if sid != [slot as isize + 1] || err(&b.vm) != 0 {
            return fail(key, format!("step {}: open-source gives {:?}, expected {}", step, sid, slot + 1));
        }
        let r = b.call("load-line", &sid);
        if r != [len as isize, -1] {
            return fail(key, format!("step {}: load-line gives {:?}, expected {} -1", step, r, len));
        }
        all[slot] = Some((p, line));
        for (k, o) in all.iter().enumerate() {
            if let Some((p, l)) = o {
                for (w, t) in [(".source-path", p), (".source-line", l)] {
                    clear_out(&mut b.vm);
                    b.call(w, &[k as isize + 1]);
                    wk.trans(1);
                    if out(&mut b.vm) != *t || err(&b.vm) != 0 {
                        return fail(key, format!("step {}: {} {} shows {:?}, expected {:?}", step, k + 1, w, out(&mut b.vm), t));
                    }
                }
            }
        }
    }
    wk.state(H::new().u(i));
    wk.trace();
    wk.store.insert(0, Box::new(b));
    Ok(())
}

pub fn property(t: bool) -> Property {
    let d = t as usize;
    let mut scopes = vec![];
    for n in 0..=6 + d {
        scopes.push(Scope::new(&format!("texts of {} characters", n), 5u64.pow(n as u32), 256, move |wk, i| texts(wk, i, n)));
    }
    scopes.push(Scope::new("bytes", 7u64.pow(5), 256, bytes));
    scopes.push(Scope::new("lines with every Unicode character", 0x110000 / 64, 16, |wk, i| {
        let mut t = String::new();
        for c in (i as u32 * 64..i as u32 * 64 + 64).filter_map(char::from_u32) {
            t += &format!("{}\nx{}\r\n{}y\r{}\n", c, c, c, c);
        }
        load_all(wk, t.as_bytes(), format!("lines with the characters from {:X} on", i * 64), 0)
    }));
    scopes.push(Scope::new("lines with every two bytes", 256 * 256, 256, |wk, i| {
        load_all(wk, &[b'x', (i >> 8) as u8, i as u8, b'\n', b'y', b'\n'], format!("bytes {:04x}", i), 0)
    }));
    scopes.push(Scope::new("paths of up to 600 characters in new and used slots", 600 * 3, 32, paths));
    scopes.push(Scope::new("long lines", 22 * 22 * 16, 64, long));
    scopes.push(Scope::new("files of up to 70,000 lines", 40, 1, many_lines));
    scopes.push(Scope::new("faults at line 300 to 66,001 of a loaded file", 36, 1, many_loaded));
    scopes.push(Scope::new("sources that start in the middle of a file", 8 * 729, 128, middle));
    let general = vec![
        Open(0), Open(1), Source(1), Source(2), Load(1), Load(2), Close(1), Close(2), Set(0), Set(1), Set(2), Id, CloseFile(1), Show(1),
    ];
    scopes.push(histories("every history of 4 source operations", vec![], general.clone(), 4));
    scopes.push(histories(
        "every history of 4 operations on three open sources",
        vec![Open(0), Source(1), Open(1), Source(1), Open(0), Source(1), Open(1), Load(1), Load(2), Load(3)],
        vec![Source(1), Load(1), Load(2), Load(3), Load(4), Close(1), Close(2), Close(3), Close(4), Set(2), Set(3), Set(0), Show(1), Show(2), Show(3), Id],
        4,
    ));
    scopes.push(histories(
        "sources belong to the task that opened them",
        vec![],
        vec![Task(0), Task(1), Open(0), Source(1), Load(1), Close(1), Set(1), Id],
        5 + d,
    ));
    let mut bad = vec![];
    for id in &[isize::MIN, -2, -1, 0, 5, 64, 1 << 32, (1 << 32) + 1, (1 << 61) + 1, isize::MAX] {
        for op in &[Source(*id), Load(*id), Close(*id), Set(*id), Show(*id), CloseFile(*id)] {
            bad.push(*op);
        }
    }
    scopes.push(histories("bad ids with open files and sources", vec![Open(0), Open(1), Source(1), Load(1)], bad.clone(), 2));
    bad.extend([Close(1), Close(2), Set(2), Id, Load(2)]);
    scopes.push(histories(
        "bad ids while a source is being read and another is closed",
        vec![Open(0), Source(1), Open(1), Source(1), Open(0), Source(1), Load(1), Set(1), Close(3)],
        bad,
        2 + d,
    ));
    for n in 1..=3 {
        scopes.push(Scope::new(
            &format!("files of {} lines with nested loads", n),
            48 * (LINES.len() as u64).pow(n as u32),
            64,
            move |wk, i| nested(wk, i, n),
        ));
    }
    scopes.push(Scope::new("chains of files with faults", 20 * 21 * 8, 4, chain));
    scopes.push(Scope::new("sessions of 4 loads", 12u64.pow(4), 64, |wk, i| sessions(wk, i, 4)));
    scopes.push(Scope::new("three loads, 40 times over", 12u64.pow(3), 16, |wk, i| sessions(wk, i, 40)));
    if t {
        scopes.push(Scope::new("sessions of 5 loads", 12u64.pow(5), 64, |wk, i| sessions(wk, i, 5)));
        scopes.push(histories("every history of 5 source operations", vec![], general, 5));
        scopes.push(Scope::new("files of 4 lines with nested loads", 48 * (LINES.len() as u64).pow(4), 256, |wk, i| nested(wk, i, 4)));
    }
    Property {
        id: "C22",
        assumptions: vec![
            "files are not changed while they are being loaded".into(),
            "the sources of a load that was aborted stay open and keep their ids".into(),
            "loads nest up to 15 deep; deeper ones overflow the stack of sources or the return stack".into(),
        ],
        scopes,
    }
}
