//! C03: stack overflow and underflow are reported, on the right stack, and nothing else is.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;

/// (word, cells taken, cells left) on the data stack.
const W: &[(&str, i32, i32)] = &[
    ("dup", 1, 2), ("drop", 1, 0), ("swap", 2, 2), ("over", 2, 3), ("nip", 2, 1), ("rot", 3, 3),
    ("-rot", 3, 3), ("2dup", 2, 4), ("2drop", 2, 0), ("2swap", 4, 4), ("2over", 4, 6),
    ("tuck", 2, 3), ("depth", 0, 1), ("1+", 1, 1), ("1-", 1, 1), ("abs", 1, 1), ("negate", 1, 1),
    ("invert", 1, 1), ("0=", 1, 1), ("0<", 1, 1), ("0>", 1, 1), ("0<>", 1, 1), ("+", 2, 1),
    ("-", 2, 1), ("*", 2, 1), ("and", 2, 1), ("or", 2, 1), ("xor", 2, 1), ("=", 2, 1),
    ("<>", 2, 1), ("<", 2, 1), (">", 2, 1), ("<=", 2, 1), (">=", 2, 1), ("max", 2, 1),
    ("min", 2, 1), ("within", 3, 1), ("lshift", 2, 1), ("rshift", 2, 1), ("true", 0, 1),
    ("false", 0, 1), ("here", 0, 1), ("7", 0, 1), ("me", 0, 1), ("base", 0, 1), ("bl", 0, 1),
    ("error", 0, 1), ("compiling?", 0, 1), ("source-id", 0, 1), ("mtime", 0, 1), ("utime", 0, 1),
    ("max-n", 0, 1), ("bounds", 2, 2), ("emit", 1, 0), (".", 1, 0), (".r", 2, 0), ("cells", 1, 1),
    ("cell+", 1, 1), ("aligned", 1, 1), ("noop", 0, 0), ("'A'", 0, 1), ("char B", 0, 1),
    ("' dup", 0, 1), ("/", 2, 1), ("mod", 2, 1), ("/mod", 2, 2),
];
/// Words that, with one operand missing but a non-negative net depth, must still be reported:
/// they compute a result from the missing cell.
const MUST: &[&str] = &[
    "+", "-", "*", "and", "or", "xor", "=", "<>", "<", ">", "<=", ">=", "within", "1+", "1-", "negate", "invert",
    "0=", "0<", "0>", "0<>", "lshift", "rshift", "/", "mod", "/mod",
];
/// (word, taken, left) on the floating-point stack; no data-stack effect unless listed in FD.
const F: &[(&str, i32, i32)] = &[
    ("fdup", 1, 2), ("fdrop", 1, 0), ("fswap", 2, 2), ("fover", 2, 3), ("fnip", 2, 1),
    ("frot", 3, 3), ("f+", 2, 1), ("f-", 2, 1), ("f*", 2, 1), ("f/", 2, 1), ("fnegate", 1, 1),
    ("fabs", 1, 1), ("fmin", 2, 1), ("fmax", 2, 1), ("pi", 0, 1), ("1.5e", 0, 1), ("fsincos", 1, 2),
    ("fsqrt", 1, 1), ("floor", 1, 1), ("mm", 1, 1), ("f0<", 1, 0), ("f<", 2, 0), ("f~", 3, 0),
    ("f>s", 1, 0), ("f0=", 1, 0), ("fatan2", 2, 1), ("f>", 2, 0), ("7 s>f", 0, 1),
];

/// The error the model predicts for moving a stack of depth d through `steps` (single cells
/// pushed or dropped): 1 overflow, -1 underflow, 0 none.
fn excursion(d: i32, steps: &[i32]) -> i32 {
    let (mut hi, mut lo, mut x) = (d, d, d);
    for s in steps {
        x += s;
        hi = hi.max(x);
        lo = lo.min(x);
    }
    if hi > 64 {
        1
    } else if lo < 0 {
        -1
    } else {
        0
    }
}

fn push_s(vm: &mut VM, d: usize) {
    for i in 0..d {
        vm.s_stack().push(9000 + i as isize);
    }
}

fn after_recovery(vm: &mut VM, key: &str) -> CaseResult {
    // After clearing, the machine is empty, quiet and usable.
    recover(vm);
    clear_out(vm);
    eval(vm, "1 2 + ?stacks 4 s>f 2.5e f+");
    let o = obs(vm);
    if o.err != 0 || o.s != [3] || o.f != [6.5f64.to_bits()] || o.r != 0 {
        return fail(key, format!("after clearing the error the machine is not usable: {:?}", o));
    }
    Ok(())
}

fn single(wk: &mut Wk, i: u64) -> CaseResult {
    let d = (i % 65) as i32;
    let c = (i / 65) % 2 == 1;
    let (w, inn, out) = W[(i / 130) as usize];
    if c && (w.contains(' ') || w.contains('\'')) && w != "'A'" {
        return Ok(());
    }
    let mut vm = wk.take_vm();
    reset(&mut vm);
    if c {
        eval(&mut vm, &format!(": zz {} ;", w));
        reset(&mut vm);
    }
    let key = format!("{} cells on the data stack: {}{}", d, w, if c { " (compiled)" } else { "" });
    wk.note(&key);
    push_s(&mut vm, d as usize);
    eval(&mut vm, if c { "zz" } else { w });
    let o = obs(&mut vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i).i(o.err).u(o.s.len() as u64));
    let nd = d - inn + out;
    let r = if nd > 64 {
        if o.err != -3 {
            fail(key.as_str(), format!("depth {} -> {}: expected stack overflow (-3), got error {}", d, nd, o.err))
        } else if !o.s.is_empty() {
            fail(key.as_str(), "stack not cleared after overflow")
        } else {
            after_recovery(&mut vm, &key)
        }
    } else if nd < 0 || (d < inn && MUST.contains(&w)) {
        if o.err != -4 {
            fail(key.as_str(), format!("depth {} needs {}: expected stack underflow (-4), got error {}", d, inn, o.err))
        } else if !o.s.is_empty() {
            fail(key.as_str(), "stack not cleared after underflow")
        } else {
            after_recovery(&mut vm, &key)
        }
    } else if d >= inn {
        // Momentary use of cells above the final depth (high-level words) is only
        // possible within four cells of the limit; those depths are left open.
        let core = !["?dup", "tuck", "<=", ">=", "max", "min", "bounds", ".", "bl"].contains(&w);
        let near = d + 3 > 64;
        if o.err != 0 && (core || !near) {
            fail(key.as_str(), format!("no limit is crossed, but error {}", o.err))
        } else if o.err == 0 && o.s.len() as i32 != nd {
            fail(key.as_str(), format!("expected depth {}, got {}", nd, o.s.len()))
        } else {
            Ok(())
        }
    } else {
        Ok(())
    };
    if room(&mut vm) > 4000 {
        wk.put_vm(vm);
    }
    r
}

fn fsingle(wk: &mut Wk, i: u64) -> CaseResult {
    let d = (i % 65) as i32;
    let (w, inn, out) = F[(i / 65) as usize];
    let vm = wk.vm();
    reset(vm);
    for k in 0..d {
        vm.f_stack().push(3.0 + k as f64);
    }
    eval(vm, w);
    let o = obs(vm);
    let key = format!("{} floats on the stack: {}", d, w);
    let nd = d - inn + out;
    let r = if nd > 64 {
        if o.err != -44 {
            fail(key.as_str(), format!("expected floating overflow (-44), got {}", o.err))
        } else {
            after_recovery(vm, &key)
        }
    } else if nd < 0 {
        if o.err != -45 {
            fail(key.as_str(), format!("expected floating underflow (-45), got {}", o.err))
        } else {
            after_recovery(vm, &key)
        }
    } else if d >= inn {
        // f> swaps in place; every listed word is primitive or in-place
        if o.err != 0 {
            fail(key.as_str(), format!("no limit is crossed, but error {}", o.err))
        } else if o.f.len() as i32 != nd {
            fail(key.as_str(), format!("expected depth {}, got {}", nd, o.f.len()))
        } else {
            Ok(())
        }
    } else {
        Ok(())
    };
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i).i(o.err).u(o.f.len() as u64));
    wk.note(&key);
    r
}

/// All sequences of single pushes/drops in one token (a compiled word) or one line.
fn moves(wk: &mut Wk, which: usize, l: usize, compiled: bool, i: u64, starts: &[i32]) -> CaseResult {
    let ns = starts.len() as u64;
    let d = starts[(i % ns) as usize];
    let m = digits(i / ns, 2, l);
    let steps: Vec<i32> = m.iter().map(|x| if *x == 0 { 1 } else { -1 }).collect();
    let (push, pop) = [("5", "drop"), ("1e", "fdrop")][which];
    let body: Vec<&str> = steps.iter().map(|s| if *s > 0 { push } else { pop }).collect();
    let body = body.join(" ");
    let mut vm = wk.take_vm();
    if room(&mut vm) < 4096 {
        vm = new_vm();
    }
    reset(&mut vm);
    if compiled {
        eval(&mut vm, &format!(": zz {} ;", body));
        reset(&mut vm);
    }
    for k in 0..d {
        if which == 0 {
            vm.s_stack().push(9000 + k as isize);
        } else {
            vm.f_stack().push(9.0 + k as f64);
        }
    }
    let key = format!(
        "{} cells on the {} stack: {}{}",
        d,
        ["data", "floating"][which],
        body,
        if compiled { " (one compiled word)" } else { " (one line)" }
    );
    wk.note(&key);
    eval(&mut vm, if compiled { "zz" } else { &body });
    let o = obs(&mut vm);
    let codes = [[-3isize, -4], [-44, -45]][which];
    // A line is checked after every token, so the first crossing decides; a compiled word
    // is checked when it returns and overflow is reported first.
    let exp = if compiled {
        excursion(d, &steps)
    } else {
        let mut x = d;
        let mut e = 0;
        for s in &steps {
            x += s;
            if x > 64 {
                e = 1;
                break;
            }
            if x < 0 {
                e = -1;
                break;
            }
        }
        e
    };
    let want = match exp {
        1 => codes[0],
        -1 => codes[1],
        _ => 0,
    };
    wk.trans(l as u64);
    wk.trace();
    wk.state(H::new().u(i).i(o.err).u(o.s.len() as u64).u(which as u64 * 2 + compiled as u64));
    let r = if o.err != want {
        fail(key.as_str(), format!("expected error {}, got {}", want, o.err))
    } else if want == 0 {
        let nd = d + steps.iter().sum::<i32>();
        let got = if which == 0 { o.s.len() } else { o.f.len() } as i32;
        if nd != got {
            fail(key.as_str(), format!("expected depth {}, got {}", nd, got))
        } else {
            Ok(())
        }
    } else {
        after_recovery(&mut vm, &key)
    };
    wk.put_vm(vm);
    r
}

/// Return stack: a word that pushes n cells with >r and takes m with r> (values balanced on the
/// data stack), run at nesting level k.
fn rstack(wk: &mut Wk, i: u64) -> CaseResult {
    // nesting depth of calls 0..=66 (each call holds one return cell), plus p in 0..=66 pushes in
    // the innermost word, all taken back.
    let k = (i % 67) as usize;
    let p = (i / 67) as usize;
    let mut vm = new_vm();
    reset(&mut vm);
    let mut src = String::from(": w0 ");
    for _ in 0..p {
        src.push_str("1 >r ");
    }
    for _ in 0..p {
        src.push_str("r> drop ");
    }
    src.push_str("; ");
    for j in 1..=k {
        src.push_str(&format!(": w{} w{} ; ", j, j - 1));
    }
    eval(&mut vm, &src);
    if err(&vm) != 0 {
        return fail(src, format!("definitions rejected: {}", err(&vm)));
    }
    let key = format!("{} nested calls, {} cells kept on the return stack", k + 1, p);
    wk.note(&key);
    reset(&mut vm);
    let t = format!("w{}", k);
    eval(&mut vm, &t);
    let o = obs(&mut vm);
    let used = k + 1 + p;
    let want = if used > 64 { -5 } else { 0 };
    wk.trans((k + 1) as u64);
    wk.trace();
    wk.state(H::new().u(i).i(o.err));
    if o.err != want {
        return fail(key, format!("{} return cells: expected error {}, got {}", used, want, o.err));
    }
    if want != 0 {
        return after_recovery(&mut vm, &key);
    }
    if o.r != 0 || !o.s.is_empty() {
        return fail(key, format!("stacks not balanced: {:?}", o));
    }
    Ok(())
}

fn recursion(wk: &mut Wk, i: u64) -> CaseResult {
    let n = i as isize;
    let vm = wk.fresh();
    reset(vm);
    eval(vm, ": down dup if 1- recurse then ; : up dup if 1- recurse 1+ then ;");
    for w in ["down", "up"] {
        reset(vm);
        vm.s_stack().push(n);
        eval(vm, w);
        let o = obs(vm);
        let want = if n + 1 > 64 { -5 } else { 0 };
        let key = format!("{} {}", n, w);
        if o.err != want || (want == 0 && o.s != [if w == "up" { n } else { 0 }]) {
            return fail(key, format!("expected error {}, got {:?}", want, o));
        }
        if want != 0 {
            after_recovery(vm, &key)?;
        }
    }
    wk.note(&format!("recursion {} deep", n));
    wk.trans(2 * i);
    wk.trace();
    wk.state(H::new().u(i));
    Ok(())
}

/// r> with nothing kept: the caller's return cell is consumed; at the outermost level that
/// underflows the return stack when the word returns.
fn runder(wk: &mut Wk, i: u64) -> CaseResult {
    let n = i as usize + 1;
    let vm = wk.fresh();
    reset(vm);
    let mut src = String::from(": zz ");
    for _ in 0..n {
        src.push_str("r> drop ");
    }
    src.push(';');
    eval(vm, &src);
    reset(vm);
    wk.note(&format!("{} zz", src));
    let vm = wk.vm();
    eval(vm, "zz");
    let o = obs(vm);
    if o.err != -6 {
        return fail(src, format!("expected return stack underflow (-6), got {}", o.err));
    }
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i));
    let vm = wk.vm();
    after_recovery(vm, &src)
}

pub fn property(t: bool) -> Property {
    let l = if t { 12 } else { 9 };
    let near: Vec<i32> = vec![0, 1, 2, 3, 4, 5, 30, 58, 59, 60, 61, 62, 63, 64];
    let mut scopes = vec![
        Scope::new("data stack: every word at every depth 0..64, interpreted and compiled", W.len() as u64 * 130, 64, single),
        Scope::new("floating stack: every word at every depth 0..64", F.len() as u64 * 65, 256, fsingle),
        Scope::new("return stack: call nesting 1..67 x kept cells 0..66", 67 * 67, 16, rstack),
        Scope::new("recursion depth 0..200", 201, 8, recursion),
        Scope::new("return stack underflow", 20, 4, runder),
    ];
    for which in 0..2 {
        for c in [false, true] {
            let st = near.clone();
            let n = st.len() as u64;
            scopes.push(Scope::new(
                &format!(
                    "{} stack: all push/drop sequences of length {} from {} depths, {}",
                    ["data", "floating"][which],
                    l,
                    n,
                    if c { "one compiled word" } else { "one line" }
                ),
                (1u64 << l) * n,
                128,
                move |wk, i| moves(wk, which, l, c, i, &st),
            ));
        }
    }
    // Long excursions in one word: from depth d push p cells then drop q.
    scopes.push(Scope::new(
        "data stack: one compiled word pushing p then dropping q cells, p,q up to 100",
        101 * 101 * 3,
        64,
        |wk, i| {
            let d = [0i32, 1, 40][(i % 3) as usize];
            let p = ((i / 3) % 101) as i32;
            let q = (i / 303) as i32;
            let vm = wk.fresh();
            reset(vm);
            let mut src = String::from(": zz ");
            for _ in 0..p {
                src.push_str("5 ");
            }
            for _ in 0..q {
                src.push_str("drop ");
            }
            src.push(';');
            eval(vm, &src);
            reset(vm);
            push_s(vm, d as usize);
            eval(vm, "zz");
            let o = obs(vm);
            let end = d + p - q;
            let want = if d + p > 64 {
                -3
            } else if end < 0 {
                -4
            } else {
                0
            };
            let key = format!("{} cells, then {} pushed and {} dropped in one word", d, p, q);
            let ok = o.err == want && (want != 0 || o.s.len() as i32 == end);
            wk.trans((p + q) as u64);
            wk.trace();
            wk.state(H::new().u(i).i(o.err));
            wk.note(&key);
            if !ok {
                return fail(key, format!("expected error {}, got {} (depth {})", want, o.err, o.s.len()));
            }
            if want != 0 {
                let vm = wk.vm();
                return after_recovery(vm, &key);
            }
            Ok(())
        },
    ));
    Property {
        id: "C03",
        assumptions: vec![
            "capacity is 64 cells per stack; excursions stay within 128 cells of it (the guard zone)".into(),
            "pushed values differ from the guard value".into(),
            "pure rearranging words with missing operands (swap, over, rot, dup and the like on too shallow a stack) are not claimed to be reported".into(),
        ],
        scopes,
    }
}
