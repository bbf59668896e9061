//! C18: a task's computation does not depend on when the other tasks run.
//! Every placement of pauses in every combination of computations gives the solo results.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;

/// Computations with five gaps each; `{}` is a gap.  The result is on the data stack.
const P: &[(&str, &str, isize)] = &[
    // name-independent prelude (with gaps), body, result
    ("", "3 >r {} 4 5 {} r@ * {} + r> {} + {}", 22),
    ("", "0 {} 4 0 {} do {} i + {} loop {}", 6),
    ("", "1.5e0 {} 2e0 f* {} fdup f+ {} fdup f* {} f>s {}", 36),
    (": fc# dup 1 > if {} dup 1- {} recurse {} * then ; ", "4 {} fc# {}", 24),
    ("", "s\" abc\" {} swap {} c@ {} + {} 1 {} +", 101),
    ("", "2 {} case 1 of 10 endof {} 2 of {} 20 endof 30 {} swap endcase {}", 20),
    ("", "1 2 3 {} rot 2* {} rot 3 * {} rot {} - - {}", -1),
    ("", "0 3 0 do {} 3 0 do {} i j * {} + loop {} loop {}", 9),
    (": in# 7 swap {} >r {} r@ + r> {} * ; ", "2 {} in# 3 {} in# +", 48),
    ("", "10 begin {} 1- dup 5 > {} while {} repeat {} {}", 5),
    (": q# {} 60 0 do i loop {} 59 0 do + loop ; ", "q# {} {} {}", 1770),
];

fn fill(s: &str, t: usize, gap: &dyn Fn(usize) -> bool, at: &mut usize) -> String {
    let mut o = String::new();
    let mut r = s;
    while let Some(p) = r.find("{}") {
        o += &r[..p];
        if gap(*at) {
            o += "pause"
        }
        *at += 1;
        r = &r[p + 2..];
    }
    o += r;
    o.replace("#", &format!("{}", t))
}

/// tasks: (computation, gap mask) for tasks 2, 3, ...; the operator's line is made of its own.
fn system(wk: &mut Wk, tasks: &[(usize, u64)], oper: usize, omask: u64) -> CaseResult {
    let mut vm = wk.take_vm();
    if !wk.store.contains_key(&0) || room(&mut vm) < 10000 {
        vm = new_vm();
        reset(&mut vm);
        eval(&mut vm, "create res 8 cells allot : res! res + ! ; : p pause ; : pi1 pause ; immediate");
        wk.store.insert(0, Box::new(()));
    }
    reset(&mut vm);
    for t in 1..5 {
        vm.set_current_task(t);
        vm.s_stack().reset();
        vm.f_stack().reset();
        vm.r_stack().reset();
    }
    vm.set_current_task(0);
    eval(&mut vm, "marker undo");
    let mut src = String::new();
    for (k, (c, m)) in tasks.iter().enumerate() {
        let t = k + 2;
        let mut at = 0;
        let g = |n: usize| m >> n & 1 == 1;
        src += &fill(P[*c].0, t, &g, &mut at);
        src += &format!(": t{0} {0} activate ", t);
        src += &fill(P[*c].1, t, &g, &mut at);
        src += &format!(" {} res! stop nod ; ", 8 * t);
    }
    for k in 0..tasks.len() {
        src += &format!("t{} ", k + 2);
    }
    // the operator's own work, token by token
    const O: &[(&str, isize)] = &[
        ("1 {} 2 {} + {} 3 {} * {} 4 {} -", 5),
        (": w 1 [] 2 [] + [] if [] 5 [] else [] 6 [] then [] ; {} w {}", 5),
        (": w 3 [] 0 [] do [] i [] loop [] + + ; {} w {}", 3),
        ("4 {} 1.5e0 {} 2e0 {} f* {} f>s {} + {}", 7),
        ("5 constant [] c5 {} c5 {} : w [] c5 [] ; {} w {} *", 25),
        (": w [] 9 [] >r [] 1 [] r> [] ; {} w {} swap {} - {}", 8),
    ];
    let mut line = String::new();
    let mut n = 0;
    let mut skip_name = false;
    for tok in O[oper].0.split_whitespace() {
        // no gap between a defining word and its name
        match tok {
            "{}" | "[]" => {
                if omask >> n & 1 == 1 && !skip_name {
                    line += if tok == "{}" { "p " } else { "pi1 " }
                }
                n += 1;
            }
            t => {
                skip_name = t == ":" || t == "constant";
                line += t;
                line += " "
            }
        }
    }
    let key = format!("{} / {}", src, line);
    wk.note(&key);
    eval(&mut vm, &src);
    if err(&vm) != 0 {
        return fail(key, format!("error {} at {:?}", err(&vm), vm.last_token()));
    }
    let id = vm.find("res").unwrap();
    vm.execute_word(id);
    vm.run();
    let res = vm.s_stack().pop() as usize;
    for t in 0..8 {
        unsafe { vm.data_space().put_isize(-77, res + 8 * t) }
    }
    eval(&mut vm, &line);
    let o = obs(&mut vm);
    if o.err != 0 || o.s != [O[oper].1] || !o.f.is_empty() || o.r != 0 || o.c != 0 || o.compiling {
        return fail(key, format!("the operator got {:?} {:?} error {}, expected {}", o.s, o.f, o.err, O[oper].1));
    }
    // let the others finish
    for _ in 0..200 {
        vm.s_stack().reset();
        eval(&mut vm, "p p p");
        if tasks.len() == (0..tasks.len()).filter(|k| !vm.awake(k + 1)).count() {
            break;
        }
    }
    wk.trans(tasks.len() as u64 + 10);
    wk.trace();
    wk.state(H::new().s(&key));
    for (k, (c, _)) in tasks.iter().enumerate() {
        let t = k + 2;
        let v = unsafe { vm.data_space().get_isize(res + 8 * t) };
        vm.set_current_task(k + 1);
        let (sl, fl) = (vm.s_stack().len(), vm.f_stack().len());
        vm.set_current_task(0);
        if v != P[*c].2 || sl != 0 || fl != 0 {
            return fail(key, format!("task {} computed {}, expected {} (stacks {} {})", t, v, P[*c].2, sl, fl));
        }
    }
    if err(&vm) != 0 {
        return fail(key, format!("error {}", err(&vm)));
    }
    reset(&mut vm);
    eval(&mut vm, "undo");
    clear_out(&mut vm);
    wk.put_vm(vm);
    Ok(())
}

/// Errors of one task do not disturb the stacks of the others.
fn faults(wk: &mut Wk, i: u64) -> CaseResult {
    const F: &[(&str, isize)] = &[("1 0 / drop", -10), ("0 @ drop", -9), ("abort", -1), ("-1 0 !", -9), ("99 suspend", -24)];
    let (f, e) = F[(i % 5) as usize];
    let i = i / 5;
    let depth = (i % 20) as usize;
    let i = i / 20;
    let who = (i % 4) as usize; // which background task fails
    let pauses = (i / 4 % 4) as usize;
    let mut vm = new_vm();
    reset(&mut vm);
    let mut src = String::from("variable seen : hh error seen ! 0error nod ; ' hh handler! : p pause ; ");
    for t in 2..=5usize {
        let body = if t == who + 2 {
            format!("{} {} {}", "5 ".repeat(depth), "pause ".repeat(pauses), f)
        } else {
            format!("{} {} 3 4 >r pause 1e pause r> +", "6 ".repeat(t), "pause ".repeat(t % 3))
        };
        src += &format!(": t{0} {0} activate {1} nod ; t{0} ", t, body);
    }
    let key = format!("task {} fails with {} at depth {} after {} pauses", who + 2, f, depth, pauses);
    wk.note(&key);
    eval(&mut vm, &src);
    if err(&vm) != 0 {
        return fail(key, format!("error {} at {:?}", err(&vm), vm.last_token()));
    }
    eval(&mut vm, "11 22 5e p p p p p p p p p p p p seen @");
    let o = obs(&mut vm);
    wk.trans(20);
    wk.trace();
    wk.state(H::new().s(&key));
    if o.err != 0 || o.s != [11, 22, e] || o.f != [5f64.to_bits()] {
        return fail(key, format!("the operator has {:?} {:?} error {}", o.s, o.f, o.err));
    }
    for t in 2..=5usize {
        vm.set_current_task(t - 1);
        let s = vm.s_stack().as_slice().to_vec();
        let fl = vm.f_stack().as_slice().to_vec();
        let want: Vec<isize> = if t == who + 2 {
            vec![]
        } else {
            let mut w = vec![6; t];
            w.push(7);
            w
        };
        if s != want || fl.len() != if t == who + 2 { 0 } else { 1 } {
            return fail(key, format!("task {} has {:?} {:?}", t, s, fl));
        }
    }
    Ok(())
}

pub fn property(t: bool) -> Property {
    let np = P.len() as u64;
    let no = 6u64;
    let mut scopes = vec![
        Scope::new("one task beside the operator: all pause placements of the task x 16 of the operator", np * 32 * no * 16, 256, move |wk, i| {
            let g = i / np;
            let om = [0u64, 1, 2, 4, 8, 16, 0x5555, 0xaaaa, 0xffff, 3, 6, 12, 0x20, 0x40, 0x80, 0x100][(g / 32 / no) as usize];
            system(wk, &[((i % np) as usize, g % 32)], (g / 32 % no) as usize, om)
        }),
        Scope::new("the operator's line: all pause placements, two busy tasks", no * 512 * np, 256, move |wk, i| {
            system(wk, &[((i % np) as usize, 31), (((i + 3) % np) as usize, 21)], (i / np % no) as usize, i / np / no)
        }),
        Scope::new("two tasks: all pairs of computations, all pause placements", np * np * 1024, 512, move |wk, i| {
            let g = i / np / np;
            system(wk, &[((i % np) as usize, g % 32), ((i / np % np) as usize, g / 32)], 0, 0x3f)
        }),
        Scope::new("0..300 turns of every set of tasks that count on their own stacks", 301 * 15 * 12, 64, |wk, i| {
            crate::c17::turns(wk, (i / 180) as isize, (i / 12 % 15) as usize + 1, (i % 12) as usize)
        }),
        Scope::new("2^k turns, one more and one less, of tasks that count on their own stacks", (if t { 11 } else { 7 }) * 3 * 15 * 12, 4, |wk, i| {
            crate::c17::turns(wk, (1 << (9 + i / 540)) - 1 + (i / 180 % 3) as isize, (i / 12 % 15) as usize + 1, (i % 12) as usize)
        }),
        Scope::new("errors in one of four tasks", 5 * 20 * 16, 16, faults),
    ];
    scopes.push({
        Scope::new("three tasks: all triples of computations, all placements in three gaps each", np * np * np * 512, 1024, move |wk, i| {
            let g = i / np / np / np;
            let m = |x: u64| (x & 1) | (x & 2) << 1 | (x & 4) << 2;
            system(
                wk,
                &[((i % np) as usize, m(g % 8)), ((i / np % np) as usize, m(g / 8 % 8)), ((i / np / np % np) as usize, m(g / 64))],
                3,
                0x3f,
            )
        })
    });
    {
        scopes.push(Scope::new("four tasks: all 4-tuples of computations, pausing everywhere", np.pow(4) * 6, 512, move |wk, i| {
            let g = digits(i / 6, np, 4);
            let m = 31;
            system(wk, &[(g[0], m), (g[1], m), (g[2], m), (g[3], m)], (i % 6) as usize, 0xffff)
        }));
    }
    if t {
        scopes.push(Scope::new("three tasks: all triples of computations, all placements in four gaps each", np * np * np * 4096, 4096, move |wk, i| {
            let g = i / np / np / np;
            system(wk, &[((i % np) as usize, g % 16), ((i / np % np) as usize, g / 16 % 16), ((i / np / np % np) as usize, g / 256)], 3, 0x3f)
        }));
        scopes.push(Scope::new("five tasks: all 4-tuples of computations, pausing in one gap each", np.pow(4) * 256, 4096, move |wk, i| {
            let g = digits(i / 256, np, 4);
            let m = |k: u64| 1u64 << (i % 256 >> (2 * k) & 3);
            system(wk, &[(g[0], m(0)), (g[1], m(1)), (g[2], m(2)), (g[3], m(3))], (i % 6) as usize, 0xffff)
        }));
    }
    Property {
        id: "C18",
        assumptions: vec![
            "the dictionary, the base, the error code, the handler and the output are shared by design".into(),
            "no pause between a parsing word and the text it parses".into(),
        ],
        scopes,
    }
}
