//! C07: counted loops visit exactly the indices of the standard's boundary rule.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;

const B: &[isize] = &[
    0, 1, 2, 3, 7, -1, -2, -3, -7, isize::MAX, isize::MAX - 1, isize::MAX - 2, isize::MIN, isize::MIN + 1,
    isize::MIN + 2, 1 << 62, -(1 << 62), (1 << 62) + 1, 1 << 32, -(1 << 32), isize::MAX / 3,
];
const CUT: usize = 12;

/// Indices visited by limit start DO .. step +LOOP, cut after CUT.
fn model(limit: isize, start: isize, step: isize, q: bool) -> Vec<isize> {
    let mut v = vec![];
    if q && limit == start {
        return v;
    }
    let mut i = start;
    loop {
        v.push(i);
        if v.len() == CUT {
            return v; // the loop body leaves here
        }
        let x = i.wrapping_sub(limit) as i128;
        let y = x + step as i128;
        // does the index cross the boundary between limit-1 and limit?
        if (x < 0 && y >= 0) || (x >= 0 && y < 0) {
            return v;
        }
        i = i.wrapping_add(step);
    }
}

const PRELUDE: &str = "variable n create buf 64 cells allot \
: rec ( i -- full? ) n @ cells buf + ! 1 n +! n @ 12 = ; \
: do+ ( step limit start -- ) do i rec if leave then dup +loop drop ; \
: ?do+ ?do i rec if leave then dup +loop drop ; \
: do1 do i rec if leave then loop ; \
: ?do1 ?do i rec if leave then loop ; \
: xdo+ do i rec if unloop drop exit then dup +loop drop ; \
: x?do1 ?do i rec if unloop exit then loop ; \
: nest ( step l s -- ) 1 0 do do i rec if leave then dup +loop j drop loop drop ; \
: jj ( l2 s2 l1 s1 -- ) do 2dup ?do j i + rec if leave then loop loop 2drop ; \
: jk ( l2 s2 l1 s1 -- ) ?do 2dup do j rec if leave then 2 +loop n @ 12 = if leave then loop 2drop ; \
: ij ( l2 s2 l1 s1 -- ) ?do i rec if leave then 2dup do i j = if leave then i rec if leave then loop n @ 12 = if leave then i rec if leave then loop 2drop ; \
variable turns variable sum variable last \
: note last ! last @ sum +! 1 turns +! ; \
: ldo+ ( step l s -- ) do i note dup +loop drop ; \
: l?do+ ( step l s -- ) ?do i note dup +loop drop ; \
: lnest ( step l s -- ) 1 0 do do i note dup +loop loop drop ; \
: ldo1 do i note loop ; \
: l?do1 ?do i note loop ; \
: l1nest 1 0 do do 0 0 ?do loop i note loop loop ;";

struct Cx {
    n: usize,
    buf: usize,
    before: usize,
}

fn machine(wk: &mut Wk) -> Result<VM, Fail> {
    let mut vm = wk.take_vm();
    if !wk.store.contains_key(&0) {
        vm = new_vm();
        reset(&mut vm);
        eval(&mut vm, PRELUDE);
        if err(&vm) != 0 {
            return fail("prelude", format!("error {}", err(&vm)));
        }
        eval(&mut vm, "n buf here");
        let before = vm.s_stack().pop() as usize;
        let buf = vm.s_stack().pop() as usize;
        let n = vm.s_stack().pop() as usize;
        wk.store.insert(0, Box::new(Cx { n, buf, before }));
    }
    reset(&mut vm);
    let n = wk.store[&0].downcast_ref::<Cx>().unwrap().n;
    poke(&mut vm, n, &0usize.to_ne_bytes());
    Ok(vm)
}

fn finish(wk: &mut Wk, mut vm: VM, key: String, want: &[isize]) -> CaseResult {
    let (n, buf) = {
        let c = wk.store[&0].downcast_ref::<Cx>().unwrap();
        let _ = c.before;
        (c.n, c.buf)
    };
    let o = obs(&mut vm);
    let base = mem(&mut vm).as_ptr() as usize;
    let rd = |m: &[u8], a: usize| isize::from_ne_bytes(m[a - base..a - base + 8].try_into().unwrap());
    let m = mem(&mut vm);
    let cnt = rd(m, n).clamp(0, 60) as usize;
    let got: Vec<isize> = (0..cnt).map(|k| rd(m, buf + 8 * k)).collect();
    wk.trans(cnt as u64 + 1);
    wk.trace();
    wk.state(H::new().s(&key));
    if o.err != 0 || !o.s.is_empty() || o.r != 0 || got != want {
        return fail(
            key,
            format!("expected indices {:?}, got {:?}, stack {:?}, return stack {}, error {}", want, got, o.s, o.r, o.err),
        );
    }
    wk.put_vm(vm);
    Ok(())
}

const V3: &[&str] = &["do+", "?do+", "xdo+", "nest"];
const V2: &[&str] = &["do1", "?do1", "x?do1"];

fn stepped(wk: &mut Wk, v: usize, l: isize, s: isize, st: isize) -> CaseResult {
    let mut vm = machine(wk)?;
    let key = format!("{} {} {} {}", st, l, s, V3[v]);
    wk.note(&key);
    vm.s_stack().push3(st, l, s);
    eval(&mut vm, V3[v]);
    finish(wk, vm, key, &model(l, s, st, V3[v] == "?do+"))
}

fn simple(wk: &mut Wk, v: usize, l: isize, s: isize) -> CaseResult {
    let mut vm = machine(wk)?;
    let key = format!("{} {} {}", l, s, V2[v]);
    wk.note(&key);
    vm.s_stack().push2(l, s);
    eval(&mut vm, V2[v]);
    finish(wk, vm, key, &model(l, s, 1, V2[v].contains('?')))
}

/// Loops of many turns: how many there are, the sum of the indices and the last index.
fn long(wk: &mut Wk, v: usize, turns: isize, step: isize, s: isize, over: isize) -> CaseResult {
    let one = v >= 3;
    let step = if one { 1 } else { step };
    if turns == 0 || (one && over != 0) {
        return Ok(());
    }
    let mut vm = machine(wk)?;
    // the boundary lies between limit-1 and limit: going down, the limit is visited too
    let end = s.wrapping_add(step.wrapping_mul(turns - 1));
    let l = if step > 0 { end.wrapping_add(step).wrapping_sub(over.min(step - 1)) } else { end.wrapping_sub(over.min(-step - 1)) };
    let w = ["ldo+", "l?do+", "lnest", "ldo1", "l?do1", "l1nest"][v];
    if l == s && w.contains('?') {
        wk.put_vm(vm);
        return Ok(());
    }
    let key = format!("{} {} {} {}", if one { String::new() } else { step.to_string() }, l, s, w);
    wk.note(&key);
    eval(&mut vm, "0 turns ! 0 sum ! 0 last !");
    if !one {
        vm.s_stack().push(step);
    }
    vm.s_stack().push2(l, s);
    eval(&mut vm, w);
    let e = err(&vm);
    eval(&mut vm, "turns @ sum @ last @");
    let o = obs(&mut vm);
    let mut sum = 0isize;
    for k in 0..turns {
        sum = sum.wrapping_add(s.wrapping_add(step.wrapping_mul(k)));
    }
    let want = [turns, sum, end];
    wk.trans(turns as u64);
    wk.trace();
    wk.state(H::new().s(&key));
    if e != 0 || o.err != 0 || o.s != want || o.r != 0 {
        return fail(key, format!("turns, sum and last index should be {:?}, got {:?} error {} {}", want, o.s, e, o.err));
    }
    wk.put_vm(vm);
    Ok(())
}

/// Loops of the nested words, small ranges.
fn range(l: isize, s: isize, step: isize, q: bool) -> Vec<isize> {
    // unbounded ranges are cut by the recorder; 40 elements are enough to reach the cut
    let mut v = vec![];
    if q && l == s {
        return v;
    }
    let mut i = s;
    for _ in 0..40 {
        v.push(i);
        let x = i.wrapping_sub(l) as i128;
        let y = x + step as i128;
        if (x < 0 && y >= 0) || (x >= 0 && y < 0) {
            break;
        }
        i = i.wrapping_add(step);
    }
    v
}

fn nested(wk: &mut Wk, v: usize, q: [isize; 4]) -> CaseResult {
    let [l2, s2, l1, s1] = q;
    let w = ["jj", "jk", "ij"][v];
    let mut want: Vec<isize> = vec![];
    // n only stops a loop at the very moment it is 12; afterwards recording goes on, so ranges
    // must be finite for the words without an outer stop
    if w == "jj" && (range(l1, s1, 1, false).len() == 40 || range(l2, s2, 1, true).len() == 40) {
        return Ok(());
    }
    let mut rec = |x: isize| {
        want.push(x);
        want.len() == CUT
    };
    match w {
        "jj" => {
            for i in range(l1, s1, 1, false) {
                for k in range(l2, s2, 1, true) {
                    if rec(i + k) {
                        break;
                    }
                }
            }
        }
        "jk" => {
            let mut full = false;
            for i in range(l1, s1, 1, true) {
                for _ in range(l2, s2, 2, false) {
                    if rec(i) {
                        full = true;
                        break;
                    }
                }
                if full {
                    break;
                }
            }
        }
        _ => {
            let mut full = false;
            for i in range(l1, s1, 1, true) {
                if rec(i) {
                    break;
                }
                for k in range(l2, s2, 1, false) {
                    if k == i {
                        break;
                    }
                    if rec(k) {
                        full = true;
                        break;
                    }
                }
                if full {
                    break;
                }
                if rec(i) {
                    break;
                }
            }
        }
    }
    if want.len() > 60 {
        return Ok(());
    }
    let mut vm = machine(wk)?;
    let key = format!("{} {} {} {} {}", l2, s2, l1, s1, w);
    wk.note(&key);
    vm.s_stack().push2(l2, s2);
    vm.s_stack().push2(l1, s1);
    eval(&mut vm, w);
    finish(wk, vm, key, &want)
}

pub fn property(t: bool) -> Property {
    let nb = B.len() as u64;
    let d: i64 = if t { 60 } else { 24 };
    let w = (2 * d + 1) as u64;
    let e: i64 = if t { 12 } else { 6 };
    let x = (2 * e + 1) as u64;
    let scopes = vec![
        Scope::new("+loop: boundary limits x starts x steps x loop forms", nb * nb * nb * 4, 1024, move |wk, i| {
            let g = digits(i / 4, nb, 3);
            stepped(wk, (i % 4) as usize, B[g[0]], B[g[1]], B[g[2]])
        }),
        Scope::new("+loop: dense limits x starts x steps x loop forms", w * w * w * 4, 1024, move |wk, i| {
            let g = digits(i / 4, w, 3);
            let f = |k: usize| k as isize - d as isize;
            stepped(wk, (i % 4) as usize, f(g[0]), f(g[1]), f(g[2]))
        }),
        Scope::new("+loop: starts near every boundary limit x steps", nb * w * w * 4, 1024, move |wk, i| {
            let f = |k: u64| k as isize - d as isize;
            let j = i / 4;
            let l = B[(j % nb) as usize];
            stepped(wk, (i % 4) as usize, l, l.wrapping_add(f(j / nb % w)), f(j / nb / w))
        }),
        Scope::new("loop: boundary limits x starts x loop forms", nb * nb * 3, 256, move |wk, i| {
            let g = digits(i / 3, nb, 2);
            simple(wk, (i % 3) as usize, B[g[0]], B[g[1]])
        }),
        Scope::new("loop: starts near every boundary limit x loop forms", nb * w * 3, 256, move |wk, i| {
            let j = i / 3;
            let l = B[(j % nb) as usize];
            simple(wk, (i % 3) as usize, l, l.wrapping_add((j / nb) as isize - d as isize))
        }),
        Scope::new("loops of every number of turns up to 700", 700 * 6 * 7, 64, move |wk, i| {
            let step = [1, -1, 2, -3, 1 << 20, -(1 << 40), 5][(i / 6 % 7) as usize];
            let turns = (i / 42) as isize;
            let s = [0, -350, isize::MAX - 100, isize::MIN + 5, 1 << 32][(turns % 5) as usize];
            long(wk, (i % 6) as usize, turns, step, s, turns % 3)
        }),
        Scope::new("loops of 2^k turns, one more, one less", (if t { 14 } else { 10 }) * 3 * 6 * 7, 8, move |wk, i| {
            let step = [1, -1, 2, -3, 1 << 20, -(1 << 36), 5][(i / 6 % 7) as usize];
            let turns = (1isize << (9 + i / 126)) - 1 + (i / 42 % 3) as isize;
            let s = [0, -350, isize::MAX - 100, isize::MIN + 5, 1 << 32][(i % 5) as usize];
            long(wk, (i % 6) as usize, turns, step, s, turns % 3)
        }),
        Scope::new("nested loops with i and j: all small ranges", x * x * x * x * 3, 512, move |wk, i| {
            let g = digits(i / 3, x, 4);
            let f = |k: usize| k as isize - e as isize;
            nested(wk, (i % 3) as usize, [f(g[0]), f(g[1]), f(g[2]), f(g[3])])
        }),
    ];
    Property {
        id: "C07",
        assumptions: vec!["a loop is observed for its first 12 iterations and then left".into()],
        scopes,
    }
}
