//! C20: ms waits at least as long as asked and not a turn longer; clocks agree; execution
//! times are the extremes of what was measured.
use crate::c17::{systems_of, Op};
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;

fn vm_clock() -> VM {
    let mut vm = new_vm();
    reset(&mut vm);
    vm.add_primitive("tick", VM::advance);
    vm
}

/// mtime and utime after n milliseconds.
fn clocks(wk: &mut Wk, i: u64) -> CaseResult {
    let mut vm = vm_clock();
    let base = i as isize * 50;
    for _ in 0..base {
        vm.advance();
    }
    for k in 0..50isize {
        eval(&mut vm, "mtime utime tick");
        let o = obs(&mut vm);
        wk.trans(1);
        if o.err != 0 || o.s != [base + k, (base + k) * 1000] {
            return fail(format!("after {} ms", base + k), format!("mtime utime: {:?}", o.s));
        }
        vm.s_stack().reset();
    }
    wk.trace();
    wk.state(H::new().u(i));
    Ok(())
}

/// ms in the operator, with a clock task that ticks after every p turns, q ms at a time.
fn wait(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i % 40) as isize - 3;
    let i = i / 40;
    let p = (i % 5) as usize;
    let i = i / 5;
    let q = (i % 5) as usize + 1;
    let t = (i / 5) as usize + 2;
    let mut vm = vm_clock();
    let src = format!(
        "variable turns : c {} activate begin {} {} 1 turns +! pause again ; c : w {} ms ; mtime w mtime swap - turns @",
        t,
        "pause 1 turns +! ".repeat(p),
        "tick ".repeat(q),
        n
    );
    wk.note(&src);
    eval(&mut vm, &src);
    let o = obs(&mut vm);
    wk.trans(n.max(1) as u64);
    wk.trace();
    wk.state(H::new().s(&src));
    // the clock task runs once per pause of the operator and ticks on every (p + 1)-th turn
    let mut now = 0;
    let mut at = 0;
    while now < n {
        // one pause
        if at == p {
            now += q as isize;
            at = 0;
        } else {
            at += 1;
        }
    }
    if o.err != 0 || o.s.len() != 2 || o.s[0] != now {
        return fail(src, format!("waited {:?} ms, expected {} (error {})", o.s.get(0), now, o.err));
    }
    if o.s[0] < n {
        return fail(src, format!("returned after {} ms", o.s[0]));
    }
    Ok(())
}

/// Far on: the clock past 2^31 and 2^32 microseconds (and, thoroughly, milliseconds).
const FAR: &[u64] = &[2_147_483, 4_294_967, 6_442_450, 8_589_934, 1 << 24, 1 << 31, (1 << 31) + (1 << 30), 1 << 32];

fn far(wk: &mut Wk, i: u64) -> CaseResult {
    let to = FAR[(i / 4) as usize];
    let mode = i % 4;
    let mut vm = vm_clock();
    wk.note(&format!("clock at {} ms", to));
    let start = to - 3;
    for _ in 0..start {
        vm.advance();
    }
    let key = format!("clock at {} ms, {}", start, ["mtime utime", "ms", "ms with a clock of 2 ms", "execution time"][mode as usize]);
    eval(&mut vm, "2 activate begin tick pause again ; : noth ;".replace("2 activate", ": c 2 activate").as_str());
    let (text, want): (&str, Vec<Vec<isize>>) = match mode {
        0 => ("mtime utime", (0..8).map(|k| vec![(start + k) as isize, (start + k) as isize * 1000]).collect()),
        1 => ("c mtime 6 ms mtime swap -", vec![vec![6]]),
        2 => (": c2 2 activate begin tick tick pause again ; c2 mtime 5 ms mtime swap -", vec![vec![6]]),
        _ => ("0xtime utime ' noth tick tick xtime utime ' noth tick tick tick tick xtime .xtime", vec![vec![]]),
    };
    for w in want {
        vm.s_stack().reset();
        eval(&mut vm, text);
        let o = obs(&mut vm);
        wk.trans(1);
        if o.err != 0 || o.s != w || (mode == 3 && o.out != "noth|2000,4000") {
            return fail(key, format!("{:?} gives {:?} {:?} error {}, expected {:?}", text, o.s, o.out, o.err, w));
        }
        vm.advance();
    }
    wk.trace();
    wk.state(H::new().u(i));
    Ok(())
}

/// Measured execution times: minimum and maximum of every word.
fn xtimes(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    // 0..8: measure word a/b/c with a duration; 9: 0xtime; 10: show
    const D: [isize; 3] = [1, 7, 5_000_000_000];
    let names = ["xa", "xb", "xc"];
    let mut m: [Option<(isize, isize)>; 3] = [None; 3];
    let mut vm = wk.take_vm();
    if !wk.store.contains_key(&0) {
        vm = vm_clock();
        for _ in 0..5_000_005 {
            vm.advance();
        }
        eval(&mut vm, ": xa ; : xb ; : xc ;");
        wk.store.insert(0, Box::new(()));
    }
    reset(&mut vm);
    eval(&mut vm, "0xtime");
    let mut key = String::new();
    let mut want = String::new();
    for d in digits(i, 13, n) {
        let src = match d {
            0..=8 => {
                let (w, t) = (d / 3, D[d % 3]);
                m[w] = Some(match m[w] {
                    None => (t, t),
                    Some((a, b)) => (a.min(t), b.max(t)),
                });
                format!("utime {} - ' {} (xtime) ", t, names[w])
            }
            9 => {
                m = [None; 3];
                "0xtime ".into()
            }
            10 => {
                // through xtime: the word is executed
                m[0] = Some(match m[0] {
                    None => (1000, 1000),
                    Some((a, b)) => (a.min(1000), b.max(1000)),
                });
                "utime ' xa ' tick execute xtime ".into()
            }
            11 => String::new(),
            _ => ".xtime ".into(),
        };
        if d == 11 {
            // a bad token is reported and leaves the times alone
            let n = vm.wordlist().len() as isize;
            for x in [-1, n, isize::MIN, n + 1] {
                let t = format!("utime {} (xtime)", x);
                key += &t;
                key += " | ";
                wk.note(&key);
                eval(&mut vm, &t);
                if err(&vm) != -24 {
                    return fail(key, format!("error {}", err(&vm)));
                }
                recover(&mut vm);
            }
            continue;
        }
        if d == 12 || d == 10 || d <= 9 {
            key += &src;
        }
        eval(&mut vm, &src);
        if d == 12 {
            want += &show(&m, &names);
        }
        if err(&vm) != 0 {
            return fail(key, format!("error {}", err(&vm)));
        }
    }
    eval(&mut vm, ".xtime");
    want += &show(&m, &names);
    let o = obs(&mut vm);
    wk.note(&key);
    wk.trans(n as u64);
    wk.trace();
    wk.state(H::new().u(n as u64).u(i));
    if o.err != 0 || o.out != want || !o.s.is_empty() {
        return fail(key, format!("expected {:?}, got {:?} error {}", want, o.out, o.err));
    }
    wk.put_vm(vm);
    Ok(())
}

fn show(m: &[Option<(isize, isize)>; 3], names: &[&str; 3]) -> String {
    let mut v = vec![];
    for w in (0..3).rev() {
        if let Some((a, b)) = m[w] {
            v.push(format!("{}|{},{}", names[w], a, b));
        }
    }
    v.join("|")
}

pub fn property(t: bool) -> Property {
    let a1 = vec![Op::Ms(-1), Op::Ms(0), Op::Ms(1), Op::Ms(3), Op::Tick(1), Op::Tick(2), Op::Pause, Op::Time];
    let a2 = vec![Op::Ms(1), Op::Ms(2), Op::Ms(4), Op::Tick(1), Op::Tick(3), Op::Pause];
    let a3 = vec![Op::Ms(1), Op::Ms(3), Op::Tick(1), Op::Pause];
    let mut scopes = vec![
        systems_of("two tasks, programs of 3 and 3 operations", vec![3, 3], vec![a1.clone(); 2], 256),
        systems_of("two tasks, programs of 4 and 3 operations", vec![4, 3], vec![a2.clone(); 2], 256),
        systems_of("three tasks, programs of 2 operations", vec![2, 2, 2], vec![a1.clone(); 3], 256),
        systems_of("three tasks, programs of 4, 2 and 2 operations", vec![4, 2, 2], vec![a3.clone(); 3], 256),
        systems_of("five tasks, programs of 2, 2, 1, 1 and 1 operations", vec![2, 2, 1, 1, 1], vec![a2.clone(), a2.clone(), a2.clone(), a3.clone(), a3.clone()], 256),
        Scope::new("mtime and utime over 10000 ms", 200, 2, clocks),
        Scope::new("ms -3..36 with clocks of every coarseness in every task", 40 * 5 * 5 * 4, 16, wait),
    ];
    scopes.push(Scope::new("clocks around 2^31 and 2^32 us and, thoroughly, ms", if t { FAR.len() } else { 5 } as u64 * 4, 1, far));
    for n in 1..=(if t { 6 } else { 4 }) {
        scopes.push(Scope::new(&format!("all histories of {} measurements", n), 13u64.pow(n as u32), 128, move |wk, i| xtimes(wk, n, i)));
    }
    if t {
        scopes.push(systems_of("two tasks, programs of 4 and 4 operations", vec![4, 4], vec![a2.clone(); 2], 512));
        scopes.push(systems_of("two tasks, programs of 4 and 3 operations, with times shown", vec![4, 3], vec![a1.clone(); 2], 512));
        scopes.push(systems_of("three tasks, programs of 3, 2 and 2 operations", vec![3, 2, 2], vec![a1.clone(); 3], 512));
        scopes.push(systems_of("three tasks, programs of 5, 3 and 3 operations", vec![5, 3, 3], vec![a3.clone(); 3], 1024));
    }
    Property {
        id: "C20",
        assumptions: vec![
            "the clock is the virtual machine's own; it advances only by whole milliseconds in the harness".into(),
            "measured durations of zero are left open".into(),
        ],
        scopes,
    }
}
