//! C19: a facility has one owner at a time; get returns at the first turn at which it is free.
use crate::c17::{systems_of, Op};
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;

fn ops(n: usize) -> Vec<Op> {
    let mut v = vec![Op::Pause];
    for x in 0..n {
        v.push(Op::Get(x));
        v.push(Op::Release(x));
    }
    v
}

/// Long-running users of one facility, with every combination of pauses before, inside and
/// after the critical section; an independent monitor watches it.
fn users(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    users_of(wk, n, i, 4, 400)
}

fn users_of(wk: &mut Wk, n: usize, i: u64, rounds: usize, turns: usize) -> CaseResult {
    let g = digits(i, 27, n);
    let mut vm = wk.take_vm();
    if !wk.store.contains_key(&1) || room(&mut vm) < 8192 {
        vm = new_vm();
        reset(&mut vm);
        // inside: the identifier of the task inside, 0 if none
        eval(
            &mut vm,
            "variable f variable inside variable bad variable order \
             : in inside @ if 1 bad ! then f @ me = not if 1 bad ! then me inside ! ; \
             : out inside @ me = not if 1 bad ! then 0 inside ! 1 order +! ;",
        );
        wk.store.remove(&0);
        wk.store.insert(1, Box::new(()));
    }
    reset(&mut vm);
    eval(&mut vm, "0 f ! 0 inside ! 0 bad ! 0 order ! marker undo");
    let mut src = String::new();
    for (k, d) in g.iter().enumerate() {
        let t = k + 2;
        let (a, b, c) = (d / 9, d / 3 % 3, d % 3);
        src += &format!(
            ": t{0} {0} activate {4} 0 do {1} f get in {2} out f release {3} loop stop nod ; ",
            t,
            "pause ".repeat(a),
            "pause ".repeat(b),
            "pause ".repeat(c),
            rounds
        );
    }
    for k in 0..n {
        src += &format!("t{} ", k + 2);
    }
    // the operator does not own it: releasing changes nothing
    src += &format!(": go {} 0 do pause f release loop ; go", turns);
    let key = src.clone();
    wk.note(&key);
    eval(&mut vm, &src);
    eval(&mut vm, "bad @ inside @ f @ order @");
    let o = obs(&mut vm);
    wk.trans(turns as u64);
    wk.trace();
    wk.state(H::new().u(n as u64).u(i).u(rounds as u64));
    let done = (0..n).all(|k| !vm.awake(k + 1));
    if o.err != 0 || o.s.len() != 4 || o.s[0] != 0 {
        return fail(key, format!("bad, inside, owner, rounds: {:?} error {}", o.s, o.err));
    }
    if (o.s[2] != 0 && done) || (done && o.s[3] != (rounds * n) as isize) {
        return fail(key, format!("all done: bad, inside, owner, rounds: {:?}", o.s));
    }
    if !done {
        return fail(key, format!("not all tasks finish: {:?}", o.s));
    }
    for t in 1..5 {
        vm.set_current_task(t);
        vm.s_stack().reset();
        vm.reset();
    }
    reset(&mut vm);
    eval(&mut vm, "undo");
    clear_out(&mut vm);
    wk.put_vm(vm);
    Ok(())
}

pub fn property(t: bool) -> Property {
    let o1 = ops(1);
    let o2 = ops(2);
    let mut scopes = vec![
        systems_of("two tasks, one facility, programs of 5 operations", vec![5, 5], vec![o1.clone(); 2], 256),
        systems_of("three tasks, one facility, programs of 3 operations", vec![3, 3, 3], vec![o1.clone(); 3], 256),
        systems_of("two tasks, two facilities, programs of 3 operations", vec![3, 3], vec![o2.clone(); 2], 256),
        systems_of("three tasks, two facilities, programs of 2 operations", vec![2, 2, 2], vec![o2.clone(); 3], 256),
        systems_of("five tasks, one facility, programs of 2 operations", vec![2, 2, 2, 2, 2], vec![o1.clone(); 5], 256),
        Scope::new("two users, all pauses before, inside and after", 27 * 27, 16, |wk, i| users(wk, 2, i)),
        Scope::new("three users, all pauses before, inside and after", 27 * 27 * 27, 64, |wk, i| users(wk, 3, i)),
        Scope::new("two users, 5..300 gets each", 296 * 27, 16, |wk, i| {
            let r = (i / 27) as usize + 5;
            users_of(wk, 2, i % 27 * 28, r, r * 24 + 100)
        }),
        Scope::new("users that get and release 2^k times, one more and one less", (if t { 10 } else { 7 }) * 3 * 27, 1, |wk, i| {
            let r = (1usize << (9 + i / 81)) - 1 + (i / 27 % 3) as usize;
            let g = i % 27;
            users_of(wk, 3, g + (g * 5 + 1) % 27 * 27 + (26 - g) * 729, r, r * 40 + 100)
        }),
    ];
    let sl = vec![Op::Pause, Op::Get(0), Op::Release(0), Op::Stop, Op::Suspend(1), Op::Resume(1)];
    let s2 = vec![Op::Pause, Op::Get(0), Op::Release(0)];
    scopes.push(systems_of(
        "three tasks, one of them suspended and resumed",
        vec![4, 3, 2],
        vec![sl.clone(), s2.clone(), s2.clone()],
        256,
    ));
    {
        scopes.push(systems_of("two tasks, two facilities, programs of 4 operations", vec![4, 4], vec![o2.clone(); 2], 512));
        scopes.push(systems_of("two tasks, two facilities, programs of 5 and 4 operations", vec![5, 4], vec![o2.clone(); 2], 1024));
        scopes.push(systems_of("three tasks, one facility, programs of 4 operations", vec![4, 4, 4], vec![o1.clone(); 3], 512));
        scopes.push(systems_of("three tasks, two facilities, programs of 3 operations", vec![3, 3, 3], vec![o2.clone(); 3], 1024));
        scopes.push(systems_of("four tasks, one facility, programs of 3 operations", vec![3, 3, 3, 3], vec![o1.clone(); 4], 512));
        scopes.push(Scope::new("four users, all pauses before, inside and after", 27u64.pow(4), 256, |wk, i| users(wk, 4, i)));
    }
    if t {
        scopes.push(systems_of("two tasks, two facilities, programs of 5 operations", vec![5, 5], vec![o2.clone(); 2], 1024));
        scopes.push(systems_of("three tasks, one facility, programs of 5 operations", vec![5, 5, 5], vec![o1.clone(); 3], 1024));
        scopes.push(systems_of("four tasks, one facility, programs of 4 operations", vec![4, 4, 4, 4], vec![o1.clone(); 4], 1024));
        scopes.push(systems_of("five tasks, one facility, programs of 3 operations", vec![3, 3, 3, 3, 3], vec![o1.clone(); 5], 1024));
    }
    Property {
        id: "C19",
        assumptions: vec![
            "a task that gets a facility it already owns waits like any other task".into(),
            "critical sections end with a release; a program that ends without one keeps the facility".into(),
        ],
        scopes,
    }
}
