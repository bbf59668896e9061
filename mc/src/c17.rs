//! C17: tasks take turns in round-robin order; activate, suspend, resume, stop and halt do
//! what they say.  Every small system of task programs is run against a scheduler model.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;

const N: usize = 5;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Pause,
    Suspend(usize),
    Resume(usize),
    Stop,
    Act(usize),
    Halt(usize),
    Me,
    /// facilities (C19)
    Get(usize),
    Release(usize),
    /// time (C20)
    Ms(isize),
    Tick(usize),
    Time,
}

impl Op {
    fn text(&self) -> String {
        match self {
            Op::Pause => "pause".into(),
            Op::Suspend(k) => format!("{} suspend", k + 1),
            Op::Resume(k) => format!("{} resume", k + 1),
            Op::Stop => "stop".into(),
            Op::Act(k) => format!("a{}", k + 1),
            Op::Halt(k) => format!("{} halt", k + 1),
            Op::Me => "me 48 + emit".into(),
            Op::Get(x) => format!("fac{} get", x),
            Op::Release(x) => format!("fac{} release", x),
            Op::Ms(n) => format!("{} ms", n),
            Op::Tick(n) => "tick ".repeat(*n),
            Op::Time => "mtime t0 @ - 48 + emit".into(),
        }
    }
}

/// One step of a task's program, as the model sees it.
#[derive(Clone, Copy, PartialEq)]
enum Pos {
    /// main program, operation k
    Main(usize),
    /// the restarted program: shows '(' , pauses, shows ')' and idles
    Alt(usize),
    /// shows the letter of the task and pauses, for ever
    Idle,
    /// waits for a facility
    Wait(usize, usize),
    /// waits for the time
    Until(usize, isize),
    /// pauses for ever, in silence (halt)
    Nod,
}

/// The letter shown before operation k of task t.
fn mark(t: usize, k: usize) -> char {
    (b'A' + (t * 6 + k) as u8) as char
}

fn idle_mark(t: usize) -> char {
    ['!', '@', '#', '%', '&'][t]
}

/// Reference scheduler: at most `events` shown characters.  None: no task was awake.
fn model(progs: &[Vec<Op>], events: usize) -> (String, bool) {
    let n = progs.len();
    let mut pos = vec![Pos::Main(0); N];
    let mut awake = vec![false; N];
    for t in 0..n {
        awake[t] = true;
    }
    let mut cur = 0;
    let mut fac = [0usize; 2];
    let mut now = 0isize;
    let mut out = String::new();
    let mut steps = 0;
    loop {
        steps += 1;
        if out.len() >= events || steps > 20 * events {
            return (out, false);
        }
        let mut pause = false;
        match pos[cur] {
            Pos::Main(k) => {
                if k >= progs[cur].len() {
                    pos[cur] = Pos::Idle;
                    continue;
                }
                out.push(mark(cur, k));
                pos[cur] = Pos::Main(k + 1);
                match progs[cur][k] {
                    Op::Pause => pause = true,
                    Op::Suspend(x) => awake[x] = false,
                    Op::Resume(x) => awake[x] = true,
                    Op::Stop => {
                        awake[cur] = false;
                        pause = true
                    }
                    Op::Act(x) => {
                        awake[x] = true;
                        pos[x] = Pos::Alt(0)
                    }
                    Op::Halt(x) => {
                        awake[x] = true;
                        pos[x] = Pos::Nod
                    }
                    Op::Me => out.push((b'1' + cur as u8) as char),
                    Op::Get(x) => {
                        if fac[x] == 0 {
                            fac[x] = cur + 1
                        } else {
                            pos[cur] = Pos::Wait(k, x);
                            pause = true
                        }
                    }
                    Op::Release(x) => {
                        if fac[x] == cur + 1 {
                            fac[x] = 0
                        }
                    }
                    Op::Ms(n) => {
                        if n > 0 {
                            pos[cur] = Pos::Until(k, now + n);
                            pause = true
                        }
                    }
                    Op::Tick(n) => now += n as isize,
                    Op::Time => out.push((48 + now as u8) as char),
                }
            }
            // no shown event while waiting
            Pos::Wait(k, x) => {
                if fac[x] == 0 {
                    fac[x] = cur + 1;
                    pos[cur] = Pos::Main(k + 1)
                } else {
                    pause = true
                }
            }
            Pos::Until(k, t) => {
                if now >= t {
                    pos[cur] = Pos::Main(k + 1)
                } else {
                    pause = true
                }
            }
            Pos::Alt(0) => {
                out.push('(');
                pos[cur] = Pos::Alt(1);
                pause = true
            }
            Pos::Alt(_) => {
                out.push(')');
                pos[cur] = Pos::Idle
            }
            Pos::Idle => {
                out.push(idle_mark(cur));
                pause = true
            }
            Pos::Nod => pause = true,
        }
        if pause {
            let mut i = cur;
            let mut k = 0;
            loop {
                i = (i + 1) % N;
                k += 1;
                if awake[i] {
                    break;
                }
                if k > N {
                    return (out, true);
                }
            }
            cur = i;
        }
    }
}

fn prelude(vm: &mut VM) {
    reset(vm);
    let mut s = String::new();
    for t in 0..N {
        s += &format!(": idle{0} begin {1} emit pause again ; ", t + 1, idle_mark(t) as u32);
        s += &format!(": a{0} {0} activate 40 emit pause 41 emit idle{0} ; ", t + 1);
    }
    s += "variable fac0 variable fac1 variable t0 ";
    vm.add_primitive("tick", VM::advance);
    eval(vm, &s);
    assert_eq!(err(vm), 0, "{:?}", vm.last_token());
}

fn source(progs: &[Vec<Op>]) -> String {
    let mut s = String::new();
    for (t, p) in progs.iter().enumerate().rev() {
        s += &if t == 0 { ": t1 ".to_string() } else { format!(": t{0} {0} activate ", t + 1) };
        if t == 0 {
            for k in 1..progs.len() {
                s += &format!("t{} ", k + 1);
            }
        }
        for (k, o) in p.iter().enumerate() {
            s += &format!("{} emit {} ", mark(t, k) as u32, o.text());
        }
        s += &format!("idle{} ; ", t + 1);
    }
    s
}

pub fn system(wk: &mut Wk, progs: &[Vec<Op>]) -> CaseResult {
    let events = 60;
    let (want, stuck) = model(progs, events);
    let mut vm = wk.take_vm();
    if !wk.store.contains_key(&0) || room(&mut vm) < 8192 {
        vm = new_vm();
        prelude(&mut vm);

        wk.store.insert(0, Box::new(()));
    }
    reset(&mut vm);
    eval(&mut vm, "0 fac0 ! 0 fac1 ! mtime t0 ! marker undo");
    let src = source(progs);
    let key = src.clone();
    wk.note(&key);
    eval(&mut vm, &src);
    if err(&vm) != 0 {
        return fail(key, format!("error {} at {:?}", err(&vm), vm.last_token()));
    }
    clear_out(&mut vm);
    let t1 = vm.find("t1").unwrap();
    vm.execute_word(t1);
    // Step by step; a pause without any task awake would never return.
    let limit = 5000;
    let mut last = 0;
    let mut idle = 0;
    for _ in 0..limit {
        let l = vm.output_buffer().as_ref().unwrap().len();
        if l >= events || (stuck && l >= want.len()) {
            break;
        }
        idle = if l == last { idle + 1 } else { 0 };
        last = l;
        if idle > 600 {
            break;
        }
        if !vm.forth() {
            break;
        }
    }
    wk.trans(last as u64);
    wk.trace();
    let got = out(&mut vm);
    wk.state(H::new().s(&src));
    let e = err(&vm);
    for t in 1..N {
        vm.set_current_task(t);
        vm.reset();
    }
    let n = got.len().min(want.len());
    if e != 0 || got[..n] != want[..n] || got.len() + 1 < want.len() {
        return fail(key, format!("expected {:?}, got {:?}, error {}", want, got, e));
    }
    reset(&mut vm);
    eval(&mut vm, "undo");
    clear_out(&mut vm);
    wk.put_vm(vm);
    Ok(())
}

/// The operations of task t in a system of n tasks.
fn ops(t: usize, n: usize, rich: bool) -> Vec<Op> {
    let mut v = vec![Op::Pause, Op::Stop];
    for x in 0..n {
        if x != t {
            v.push(Op::Suspend(x));
            v.push(Op::Resume(x));
            if x > 0 && rich {
                v.push(Op::Act(x));
                v.push(Op::Halt(x));
            }
        } else if rich {
            v.push(Op::Suspend(x));
            v.push(Op::Me);
        }
    }
    v
}

fn systems(name: &str, lens: Vec<usize>, rich: bool, chunk: u64) -> Scope {
    let n = lens.len();
    systems_of(name, lens, (0..n).map(|t| ops(t, n, rich)).collect(), chunk)
}

/// Every system of programs of the given lengths over the given operations.
pub fn systems_of(name: &str, lens: Vec<usize>, al: Vec<Vec<Op>>, chunk: u64) -> Scope {
    let n = lens.len();
    let mut total = 1u64;
    for t in 0..n {
        total *= (al[t].len() as u64).pow(lens[t] as u32);
    }
    Scope::new(name, total, chunk, move |wk, mut i| {
        let mut progs = vec![];
        for t in 0..n {
            let mut p = vec![];
            for _ in 0..lens[t] {
                let r = al[t].len() as u64;
                p.push(al[t][(i % r) as usize]);
                i /= r;
            }
            progs.push(p);
        }
        system(wk, &progs)
    })
}

/// Identifiers out of range are reported and change nothing.
fn bad_ids(wk: &mut Wk, i: u64) -> CaseResult {
    const IDS: &[isize] = &[0, -1, 6, 7, 100, isize::MIN, isize::MAX, 1 << 32, -(1 << 32) + 1, 256, 257, 65537, (1 << 32) + 1, 1, 2, 3, 4, 5];
    let id = IDS[(i % 18) as usize];
    let w = ["suspend", "resume", "act", "halt"][(i / 18 % 4) as usize];
    let compiled = i / 72 == 1;
    let mut vm = new_vm();
    prelude(&mut vm);
    eval(&mut vm, ": act activate begin pause again ; 2 act 3 act 4 act 5 act 4 suspend 5 suspend");
    if w == "act" && id == 1 || w == "halt" && id == 1 {
        return Ok(()); // a task does not activate itself
    }
    let aw0: Vec<bool> = (0..N).map(|t| vm.awake(t)).collect();
    vm.s_stack().push(id);
    let key = format!("{} {}", id, w);
    wk.note(&key);
    if compiled {
        eval(&mut vm, &format!(": w {} ; w", w));
    } else {
        eval(&mut vm, w);
    }
    let aw: Vec<bool> = (0..N).map(|t| vm.awake(t)).collect();
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i));
    let ok = id >= 1 && id <= 5;
    let mut want = aw0.clone();
    if ok {
        want[id as usize - 1] = w != "suspend";
    }
    if aw != want || (err(&vm) == 0) != ok || (!ok && err(&vm) != -24) {
        return fail(key, format!("error {}, awake {:?}, expected {:?}", err(&vm), aw, want));
    }
    Ok(())
}

/// me and operator in every task.
fn identity(wk: &mut Wk, i: u64) -> CaseResult {
    let t = i as usize;
    let mut vm = new_vm();
    prelude(&mut vm);
    eval(&mut vm, &format!("variable m variable o : t {} activate me m ! operator o ! nod ; : go t pause me m @ o @ ; ", t + 1));
    if t == 0 {
        eval(&mut vm, "me m ! operator o ! me m @ o @");
    } else {
        eval(&mut vm, "go");
    }
    let o = obs(&mut vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i));
    if o.err != 0 || o.s != [1, t as isize + 1, 1] {
        return fail(format!("task {}", t + 1), format!("me, operator: {:?} error {}", o.s, o.err));
    }
    Ok(())
}

/// The documented examples: up, down, watch, suspend, resume, stop, halt.
fn examples(wk: &mut Wk, i: u64) -> CaseResult {
    let t = (i % 4) as usize + 2;
    let n = (i / 4) as isize + 1;
    let mut vm = new_vm();
    reset(&mut vm);
    eval(
        &mut vm,
        &format!(
            "variable counter : up {0} activate begin pause 1 counter +! again ; \
             : down {0} activate begin pause -1 counter +! again ; \
             : up-down {0} activate 5 0 do pause 1 counter +! loop stop 3 0 do pause -1 counter +! loop nod ; \
             : watch 0 ?do pause counter ? loop ;",
            t
        ),
    );
    // counter is stepped by the pause after the first
    let mut want = String::new();
    let mut c = 0isize;
    let mut started = false;
    let mut watch = |want: &mut String, c: &mut isize, started: &mut bool, d: isize, k: isize| {
        for _ in 0..k {
            if *started {
                *c += d
            }
            *started = true;
            want.push_str(&format!("{} ", c));
        }
    };
    eval(&mut vm, &format!("up {} watch", n));
    watch(&mut want, &mut c, &mut started, 1, n);
    eval(&mut vm, "8 watch");
    watch(&mut want, &mut c, &mut started, 1, 8);
    eval(&mut vm, &format!("down {} watch", n));
    started = false;
    watch(&mut want, &mut c, &mut started, -1, n);
    eval(&mut vm, &format!("{} suspend 3 watch", t));
    for _ in 0..3 {
        want.push_str(&format!("{} ", c));
    }
    eval(&mut vm, &format!("{} resume 2 watch", t));
    watch(&mut want, &mut c, &mut started, -1, 2);
    eval(&mut vm, &format!("{} halt 4 watch", t));
    for _ in 0..4 {
        want.push_str(&format!("{} ", c));
    }
    eval(&mut vm, "up-down 8 watch");
    started = false;
    watch(&mut want, &mut c, &mut started, 1, 6);
    for _ in 0..2 {
        want.push_str(&format!("{} ", c));
    }
    eval(&mut vm, &format!("{} resume 6 watch", t));
    started = false;
    watch(&mut want, &mut c, &mut started, -1, 4);
    for _ in 0..2 {
        want.push_str(&format!("{} ", c));
    }
    let o = obs(&mut vm);
    wk.trans(40);
    wk.trace();
    wk.state(H::new().u(i));
    if o.err != 0 || o.out != want || !o.s.is_empty() {
        return fail(format!("examples with task {} and {}", t, n), format!("expected {:?}, got {:?} error {}", want, o.out, o.err));
    }
    Ok(())
}

/// A task that is activated again starts anew, however deep in calls, loops and return
/// stack cells its former life was, and whether it was awake or asleep.
fn anew(wk: &mut Wk, i: u64) -> CaseResult {
    let d = (i % 21) as usize * 3; // depth of the former life
    let m = (i / 21 % 21) as usize * 3; // depth of the next one
    let kind = (i / 441 % 3) as usize;
    let asleep = i / 1323 % 2 == 1;
    let t = (i / 2646) as usize + 2;
    let mut vm = new_vm();
    prelude(&mut vm);
    let mut src = String::from("variable seen : l0 pause seen @ 1+ seen ! begin pause again ; ");
    // A life of depth k: k cells or calls on the return stack, then pauses forever.
    let life = |name: &str, k: usize, src: &mut String| {
        match kind {
            0 => {
                *src += &format!(": {} ", name);
                for j in 0..k {
                    *src += &format!("{} >r ", j);
                }
                *src += "?stacks 1 seen +! begin pause again ; ";
            }
            1 => {
                *src += &format!("variable n{0} : r{0} n{0} @ if -1 n{0} +! recurse then ?stacks 1 seen +! begin pause again ; : {0} {1} n{0} ! r{0} ; ", name, k);
            }
            _ => {
                *src += &format!(": {} ", name);
                for _ in 0..k / 3 {
                    *src += "5 0 do ";
                }
                *src += "?stacks 1 seen +! begin pause again ";
                for _ in 0..k / 3 {
                    *src += "loop ";
                }
                *src += "; ";
            }
        }
    };
    life("a", d, &mut src);
    life("b", m, &mut src);
    src += &format!(": ta {t} activate a ; : tb {t} activate b ; ");
    for line in src.split_inclusive("; ") {
        eval(&mut vm, line);
        if err(&vm) != 0 {
            return fail(format!("{}", line), format!("error {}", err(&vm)));
        }
    }
    let run = format!(": go 0 seen ! ta pause pause {} tb pause pause ta pause seen @ ; go", if asleep { format!("{} suspend", t) } else { String::new() });
    let key = format!("task {}, depths {} and {} of kind {}, `{}`", t, d, m, kind, run);
    wk.note(&key);
    eval(&mut vm, &run);
    let o = obs(&mut vm);
    wk.trans(6);
    wk.trace();
    wk.state(H::new().u(i));
    if o.err != 0 || o.s != [3] || vm.current_task() != 0 {
        return fail(key, format!("expected three starts, got {:?} error {} in task {}", o.s, o.err, vm.current_task()));
    }
    vm.set_current_task(t - 1);
    let r = vm.r_stack().len() as usize;
    // One cell for the call of `a` (two with its recursion), none of former lives.
    let (lo, hi) = match kind {
        0 => (d, d + 1),
        1 => (d, d + 2),
        _ => (d, d + 1),
    };
    if r < lo || r > hi {
        return fail(key, format!("the return stack of the task holds {} cells, expected {}", r, hi));
    }
    Ok(())
}

/// Bodies of tasks that count their turns in n, on different stacks.
const COUNT: &[&str] = &[
    "begin 1 {n} +! pause again",
    "0 begin 1+ dup {n} ! pause again",
    "0 >r begin r> 1+ dup {n} ! >r pause again",
    "max-n 0 do i 1+ {n} ! pause loop",
    "0e begin 1e f+ fdup f>s {n} ! pause again",
    "begin 1 0 do 7 {n} @ 1+ {n} ! pause drop loop again",
];

/// Many turns: each task that is awake has one turn in each round, however many there are.
pub fn turns(wk: &mut Wk, n: isize, set: usize, kind: usize) -> CaseResult {
    let mut vm = wk.take_vm();
    if !wk.store.contains_key(&77) || room(&mut vm) < 16384 {
        vm = new_vm();
        reset(&mut vm);
        eval(&mut vm, ": go 0 ?do pause loop ; variable n2 variable n3 variable n4 variable n5");
        wk.store.clear();
        wk.store.insert(77, Box::new(()));
    }
    reset(&mut vm);
    let mut text = String::from("0 n2 ! 0 n3 ! 0 n4 ! 0 n5 ! marker -turns ");
    for t in 2..=5 {
        if set >> (t - 2) & 1 == 1 {
            let b = COUNT[(kind + t * (kind / COUNT.len())) % COUNT.len()].replace("{n}", &format!("n{}", t));
            text += &format!(": t{t} {t} activate {b} nod ; t{t} ");
        }
    }
    text += &format!("{} go", n);
    wk.note(&text);
    eval(&mut vm, &text);
    let e = err(&vm);
    eval(&mut vm, "n2 @ n3 @ n4 @ n5 @");
    let o = obs(&mut vm);
    wk.trans(n as u64 * set.count_ones() as u64);
    wk.trace();
    wk.state(H::new().i(n).u(set as u64).u(kind as u64));
    let want: Vec<isize> = (0..4).map(|t| if set >> t & 1 == 1 { n } else { 0 }).collect();
    if e != 0 || o.err != 0 || o.s != want || o.r != 0 || o.f.len() != 0 {
        return fail(text, format!("turns of the tasks 2 to 5: expected {:?}, got {:?} error {} {}", want, o.s, e, o.err));
    }
    for t in 2..=5 {
        if set >> (t - 2) & 1 == 1 {
            eval(&mut vm, &format!("{} halt", t));
            vm.set_current_task(t - 1);
            vm.clear_stacks();
            vm.reset();
            vm.set_current_task(0);
        }
    }
    reset(&mut vm);
    eval(&mut vm, "-turns");
    wk.put_vm(vm);
    Ok(())
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![
        systems("two tasks, programs of 3 and 3 operations", vec![3, 3], true, 256),
        systems("two tasks, programs of 4 and 3 operations, plain", vec![4, 3], false, 256),
        systems("three tasks, programs of 2, 2 and 2 operations, plain", vec![2, 2, 2], false, 512),
        systems("three tasks, programs of 2, 1 and 1 operations", vec![2, 1, 1], true, 256),
        systems("four tasks, programs of 1 operation", vec![1, 1, 1, 1], true, 256),
        systems("five tasks, programs of 1 operation, plain", vec![1, 1, 1, 1, 1], false, 512),
        Scope::new("identifiers in and out of range", 144, 4, bad_ids),
        Scope::new("me and operator in each task", 5, 1, identity),
        Scope::new("activating again at every depth", 2646 * 4, 32, anew),
        Scope::new("the documented examples", 4 * 30, 4, examples),
        Scope::new("0..300 turns of every set of tasks", 301 * 16, 64, |wk, i| turns(wk, (i / 16) as isize, (i % 16) as usize, 0)),
        Scope::new("2^k turns, one more and one less, of every set of tasks", (if t { 11 } else { 8 }) * 3 * 16, 4, |wk, i| {
            turns(wk, (1 << (9 + i / 48)) - 1 + (i / 16 % 3) as isize, (i % 16) as usize, 0)
        }),
    ];
    {
        scopes.push(systems("two tasks, programs of 5 and 4 operations, plain", vec![5, 4], false, 512));
        scopes.push(systems("two tasks, programs of 4 and 3 operations", vec![4, 3], true, 512));
        scopes.push(systems("three tasks, programs of 3, 2 and 2 operations, plain", vec![3, 2, 2], false, 1024));
        scopes.push(systems("three tasks, programs of 2, 2 and 1 operations", vec![2, 2, 1], true, 512));
        scopes.push(systems("four tasks, programs of 2, 2, 1 and 1 operations, plain", vec![2, 2, 1, 1], false, 512));
        scopes.push(systems("five tasks, programs of 1 operation", vec![1, 1, 1, 1, 1], true, 1024));
    }
    if t {
        scopes.push(systems("two tasks, programs of 5 and 5 operations, plain", vec![5, 5], false, 1024));
        scopes.push(systems("two tasks, programs of 4 and 4 operations", vec![4, 4], true, 1024));
        scopes.push(systems("three tasks, programs of 3, 3 and 2 operations, plain", vec![3, 3, 2], false, 1024));
        scopes.push(systems("three tasks, programs of 2, 2 and 2 operations", vec![2, 2, 2], true, 1024));
        scopes.push(systems("four tasks, programs of 2, 2, 2 and 1 operations, plain", vec![2, 2, 2, 1], false, 1024));
        scopes.push(systems("five tasks, programs of 2, 1, 1, 1 and 1 operation, plain", vec![2, 1, 1, 1, 1], false, 1024));
    }
    Property {
        id: "C17",
        assumptions: vec![
            "a task does not activate or halt itself, and a system in which every task sleeps is not run further".into(),
            "each system is followed for 60 shown events".into(),
        ],
        scopes,
    }
}
