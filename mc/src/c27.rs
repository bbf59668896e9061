//! C27: a word does the same however it is reached: interpreted, compiled, by its token,
//! postponed, deferred, or through the interpreter written in Forth.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;

/// Words on at most four cells and two floats.
const WORDS: &[&str] = &[
    "dup", "drop", "swap", "over", "rot", "-rot", "nip", "tuck", "?dup", "2dup", "2drop", "2swap", "2over", "1+", "1-", "+",
    "-", "*", "/", "mod", "/mod", "negate", "abs", "min", "max", "and", "or", "xor", "invert", "lshift", "rshift", "=", "<>",
    "<", ">", "<=", ">=", "0=", "0<", "0>", "0<>", "within", "depth", "true", "false", "bl", "cells", "cell+", "chars",
    "char+", "aligned", "2*", "2/", "emit", ".", "cr", "space", "h.", "fdup", "fdrop", "fswap", "fover", "f+", "f-", "f*", "f/",
    "fnegate", "fabs", "f<", "f0<", "f0=", "s>f", "f>s", "f.", ".s", "fsqrt", "floor", "fround", "pick", "noop", "base", "decimal", "hex",
    "count", "@", "abort", "max-n", "bounds", "/string", "within", "?stacks", "0stacks",
    // words of each kind that a user defines
    "u-colon", "u-const", "u-var", "u-2const", "u-fconst", "u-does", "u-defer", "u-create", "u-2var", "u-im", "u-local", "u-exit", "u-loop", "u-rec",
];

const USER: &str = ": u-colon 2 + ; 11 constant u-const variable u-var 5 6 2constant u-2const 2.5e fconstant u-fconst \
: mk create , does> @ + ; 100 mk u-does  defer u-defer ' dup ' u-defer defer!  create u-create 1 , 2 ,  2variable u-2var \
: u-im 3 * ; immediate  : u-local >r dup r> swap ;  : u-exit dup 0< if exit then 1+ ;  : u-loop 3 0 do i + loop ; \
: u-rec dup 0> if 2/ recurse else drop then ; \
: cw compile, ; : go evaluate-input ; ";

/// Ways of reaching a word inside a definition.
const FORMS: &[&str] = &[
    "{}", "['] {} execute", "[ ' {} cw ]", "p-{}", "d-{}", "c-{}", "[ ' {} ] literal execute", "x-{}", "pp-{}", "e-{} execute", "cc-{}",
];

struct Bench {
    vm: VM,
}

fn bench(wk: &mut Wk) -> Box<Bench> {
    if let Some(b) = wk.store.remove(&0) {
        let mut b = b.downcast::<Bench>().unwrap();
        if room(&mut b.vm) > 4096 {
            return b;
        }
    }
    let mut vm = new_vm();
    reset(&mut vm);
    let mut defs: Vec<String> = USER.split_inclusive("; ").map(|x| x.to_string()).collect();
    for w in WORDS {
        // for an immediate word, the compiled form postpones it once more
        let im = *w == "u-im";
        let call = if im { format!("postpone {}", w) } else { w.to_string() };
        defs.push(if im { format!(": p-{0} ['] {0} compile, ; immediate", w) } else { format!(": p-{0} postpone {0} ; immediate", w) });
        defs.push(format!("defer d-{0} ' {0} ' d-{0} defer!", w));
        defs.push(format!(": c-{} {} ;", w, call));
        defs.push(format!(": cc-{0} c-{0} ;", w));
        defs.push(format!(": mkx-{0} create does> drop {1} ; mkx-{0} x-{0}", w, call));
        defs.push(format!(": pp-{0} postpone p-{0} ; immediate", w));
        defs.push(format!("' {0} constant e-{0}", w));
    }
    for d in &defs {
        eval(&mut vm, d);
        assert!(err(&vm) == 0 && !vm.state().is_compiling, "{}: {}", d, err(&vm));
    }
    clear_out(&mut vm);
    Box::new(Bench { vm })
}

const STACKS: &[(&[isize], &[f64])] = &[
    (&[9, -4, 2, 7, 3], &[1.5, -2.25, 4.0]),
    (&[1, 0, isize::MIN, -1, 65], &[0.0, 0.5, -1.0]),
    (&[], &[]),
];

fn load(vm: &mut VM, k: usize) {
    reset(vm);
    for x in STACKS[k].0 {
        vm.s_stack().push(*x);
    }
    for x in STACKS[k].1 {
        vm.f_stack().push(*x);
    }
    vm.set_error(None);
    clear_out(vm);
}

/// What a text does to a machine in a fixed state.
fn effect(vm: &mut VM, k: usize, text: &str) -> (Obs, isize) {
    load(vm, k);
    let a = vm.data_space().system_variables().base_addr();
    eval(vm, text);
    let o = obs(vm);
    use rtforth::memory::Memory;
    let base = unsafe { vm.data_space().get_isize(a) };
    recover(vm);
    reset(vm);
    (o, base)
}

fn same(a: &(Obs, isize), b: &(Obs, isize)) -> bool {
    // an error leaves what the words before it left; the stacks are cleared by the host
    a.0.err == b.0.err && a.0.out == b.0.out && a.1 == b.1 && a.0.s == b.0.s && a.0.f == b.0.f && a.0.compiling == b.0.compiling
}

/// One word, each form, each stack, against the interpreted word.
fn single(wk: &mut Wk, i: u64) -> CaseResult {
    let w = WORDS[(i % WORDS.len() as u64) as usize];
    let k = (i / WORDS.len() as u64) as usize;
    let mut b = bench(wk);
    let vm = &mut b.vm;
    let want = effect(vm, k, w);
    // underflow is found by the words or at the end of the line, see C03
    if want.0.err == -4 || want.0.err == -45 {
        wk.store.insert(0, b);
        return Ok(());
    }
    let mut texts: Vec<String> = vec![];
    for (n, f) in FORMS.iter().enumerate() {
        let mut form = f.replace("{}", w);
        if w == "u-im" && n == 0 {
            form = "p-u-im".into();
        }
        texts.push(format!("marker undo : t {} ; t", form));
        texts.push(format!("marker undo : t {} ; : t2 t ; defer t3 ' t2 ' t3 defer! t3", form));
        texts.push(format!("marker undo : t {} ; go t", form));
        texts.push(format!("marker undo go : t {} ; t", form));
        texts.push(format!("marker undo : t 1 if {} else 2 then ; t", form));
        texts.push(format!("marker undo : t 1 0 do {} loop ; t", form));
        texts.push(format!("marker undo create t 1 , does> drop {} ; t", form).replace("create t 1 , does>", ": mkt create 1 , does>") .replace("; t", "; mkt t t"));
    }
    for f in ["' {} execute", "['] {} execute", "go {}", "go ' {} execute", "d-{}", "c-{}", "x-{}", "e-{} execute", "go d-{}", "c-{} noop", " \t{}\t", "( x ) {} \\ y"] {
        if f.starts_with("[']") {
            continue;
        }
        texts.push(f.replace("{}", w));
    }
    if w.len() > 1 {
        texts.push(w.to_uppercase());
        texts.push(format!("go {}", w.to_uppercase()));
        texts.push(format!("marker undo : t {} ; t", if w == "u-im" { "P-U-IM".into() } else { w.to_uppercase() }));
    }
    for t in &texts {
        let key = format!("{} on {:?}", t, STACKS[k]);
        wk.note(&key);
        let got = effect(vm, k, t);
        wk.trans(1);
        wk.trace();
        if t.starts_with("marker") {
            if vm.find("undo").is_some() {
                eval(vm, "undo");
                reset(vm);
            }
        }
        if !same(&want, &got) {
            return fail(key, format!("interpreted it gives {:?}, so {:?}", want, got));
        }
    }
    wk.state(H::new().u(i));
    wk.store.insert(0, b);
    Ok(())
}

/// Sequences of words, each in some form, in one definition, against the plain text interpreted.
fn sequence(wk: &mut Wk, ws: usize, fs: usize, n: usize, i: u64) -> CaseResult {
    const S: &[&str] = &[
        "swap", "over", "+", "u-does", "dup", "/", "u-defer", "u-const", "u-im", ".", "u-exit", "f+", "s>f", "u-2const", "drop", "u-rec",
        "u-loop", "u-local", "u-var", "rot",
    ];
    let per = (ws * fs) as u64;
    let d = digits(i, per, n);
    let mut b = bench(wk);
    let vm = &mut b.vm;
    let plain: Vec<&str> = d.iter().map(|x| S[x % ws]).collect();
    let formed: Vec<String> = d
        .iter()
        .map(|x| {
            let w = S[x % ws];
            let f = x / ws;
            if w == "u-im" && f == 0 { "p-u-im".into() } else { FORMS[f].replace("{}", w) }
        })
        .collect();
    let text = format!("marker undo : t {} ; t", formed.join(" "));
    let key = text.clone();
    wk.note(&key);
    let want = effect(vm, 0, &plain.join(" "));
    let got = effect(vm, 0, &text);
    wk.trans(n as u64);
    wk.trace();
    wk.state(H::new().u(n as u64).u(i));
    eval(vm, "undo");
    reset(vm);
    if !same(&want, &got) {
        return fail(key, format!("interpreted it gives {:?}, compiled {:?}", want, got));
    }
    wk.store.insert(0, b);
    Ok(())
}

/// Literals: interpreted, compiled, by literal, 2literal, fliteral, postponed literal, in the Forth interpreter.
fn literals(wk: &mut Wk, i: u64) -> CaseResult {
    let v = {
        let k = (i % 400) as isize;
        match k {
            0..=199 => k - 100,
            200..=262 => 1isize << (k - 200),
            263..=325 => -(1isize << (k - 263)),
            326..=370 => isize::MAX - (k - 326),
            _ => isize::MIN + (k - 371),
        }
    };
    let form = (i / 400) as usize;
    if (8..=12).contains(&form) && v == isize::MIN {
        return Ok(()); // a significand of 64 bits is not a literal, see C14
    }
    let mut b = bench(wk);
    let vm = &mut b.vm;
    let f = v as f64;
    let (text, s, fs): (String, Vec<isize>, Vec<f64>) = match form {
        0 => (format!("{}", v), vec![v], vec![]),
        1 => (format!(": t {} ; t", v), vec![v], vec![]),
        2 => (format!("{} : t [ over ] literal ; t", v), vec![v, v], vec![]),
        3 => (format!(": t [ {} 7 ] 2literal ; t", v), vec![v, 7], vec![]),
        4 => (format!(": lt postpone literal ; immediate : t [ {} ] lt ; t", v), vec![v], vec![]),
        5 => (format!("go {}", v), vec![v], vec![]),
        6 => (format!("go : t {} ; t", v), vec![v], vec![]),
        7 => (format!("{} constant t go : u t ; u", v), vec![v], vec![]),
        8 => (format!(": t {}e ; t", v), vec![], vec![f]),
        9 => (format!("{}e", v), vec![], vec![f]),
        10 => (format!(": t [ {}e ] fliteral ; t", v), vec![], vec![f]),
        11 => (format!("go : t {}e {} ; t", v, v), vec![v], vec![f]),
        12 => (format!(": t {v} {v}e {v} {v}e ; t", v = v), vec![v, v], vec![f, f]),
        13 => (format!(": mk {v} postpone literal ; immediate : t mk mk ; t", v = v), vec![v, v], vec![]),
        _ => (format!("hex : t ${:x} #{} ; decimal t", v.unsigned_abs() >> 1, v), vec![(v.unsigned_abs() >> 1) as isize, v], vec![]),
    };
    let text = match form {
        2 => text.replace("[ over ]", "[ dup ]"),
        _ => text,
    };
    let key = text.clone();
    wk.note(&key);
    reset(vm);
    eval(vm, "marker undo");
    eval(vm, &text);
    let o = obs(vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i));
    let fb: Vec<u64> = fs.iter().map(|x| x.to_bits()).collect();
    let ok = o.err == 0 && o.s == s && (o.f == fb || o.f.len() == fb.len() && o.f.iter().zip(&fs).all(|(a, b)| (f64::from_bits(*a) - b).abs() <= b.abs() * 1e-13));
    if !ok {
        return fail(key, format!("expected {:?} {:?}, got {:?}", s, fs, o));
    }
    eval(vm, "undo");
    reset(vm);
    wk.store.insert(0, b);
    Ok(())
}

/// Compiling words reached through one or two levels of postpone or as parts of other compiling words.
const MACROS: &[(&str, &[(&[isize], &[isize])])] = &[
    (": unless postpone 0= postpone if ; immediate : t unless 5 else 6 then ;", &[(&[0], &[5]), (&[1], &[6]), (&[-1], &[6])]),
    (": unless postpone 0= postpone if ; immediate : unl postpone unless ; immediate : t unl 5 else 6 then ;", &[(&[0], &[5]), (&[3], &[6])]),
    (": ;; postpone exit postpone ; ; immediate : t 9 ;;", &[(&[], &[9])]),
    (": for postpone >r postpone begin ; immediate : next postpone r> postpone 1- postpone dup postpone >r postpone 0= postpone until postpone r> postpone drop ; immediate : t 0 swap for 2 + next ;", &[(&[3], &[6]), (&[1], &[2])]),
    (": times 0 postpone literal postpone ?do ; immediate : t 0 swap times 1+ loop ;", &[(&[5], &[5]), (&[0], &[0])]),
    (": when postpone if ; immediate : done postpone exit postpone then ; immediate : t dup 1 = when drop 11 done dup 2 = when drop 22 done drop 0 ;", &[(&[1], &[11]), (&[2], &[22]), (&[3], &[0])]),
    (": sel postpone case ; immediate : is postpone of ; immediate : so postpone endof ; immediate : end postpone endcase ; immediate : t sel 1 is 10 so 2 is 20 so 30 swap end ;", &[(&[1], &[10]), (&[2], &[20]), (&[9], &[30])]),
    (": .. postpone ( ; immediate : t 4 .. 5 ) ;", &[(&[], &[4])]),
    (": lit, postpone literal ; immediate : t [ 5 6 + ] lit, [ 7 ] lit, ;", &[(&[], &[11, 7])]),
    (": const7 7 postpone literal ; immediate : t const7 const7 + ;", &[(&[], &[14])]),
    (": tick' postpone ['] ; immediate : sq dup * ; : t tick' sq execute ;", &[(&[5], &[25])]),
    (": me-too postpone recurse ; immediate : t dup 0> if 1- me-too 2 + then ;", &[(&[4], &[8]), (&[0], &[0])]),
    (": ch postpone [char] ; immediate : t ch a ch b ;", &[(&[], &[97, 98])]),
    (": const create , does> @ ; 42 const c42 : t c42 c42 + ;", &[(&[], &[84])]),
    (": defer-it create , does> @ execute ; : sq dup * ; ' sq defer-it t", &[(&[6], &[36])]),
    (": maker create , does> @ postpone literal ; 8 maker eight immediate : t eight eight * ;", &[(&[], &[64])]),
    (": lp postpone do ; immediate : el postpone +loop ; immediate : t 0 10 0 lp i + 2 el ;", &[(&[], &[20])]),
    (": wh postpone while ; immediate : rp postpone repeat ; immediate : t begin dup 3 < wh 1+ rp ;", &[(&[0], &[3]), (&[5], &[5])]),
    (": [+] postpone + ; immediate : t 1 2 [+] [+] ;", &[(&[4], &[7])]),
    (": 2x postpone dup postpone + ; immediate : t 2x 2x ;", &[(&[3], &[12])]),
    (": cx ['] 1+ compile, ; immediate : t cx cx cx ;", &[(&[3], &[6])]),
    (": st postpone [ ; immediate : t 5 st 6 ] literal ;", &[(&[], &[5, 6])]),
    ("defer dd : dset ['] 1+ ['] dd defer! ; dset : t dd dd ;", &[(&[3], &[5])]),
    ("defer d1 defer d2 ' d2 ' d1 defer! ' negate ' d2 defer! : t d1 ' ; drop ;", &[]),
    ("defer d1 defer d2 ' d2 ' d1 defer! ' negate ' d2 defer! : t d1 ['] d1 defer@ execute ;", &[(&[3], &[3])]),
    ("defer dd ' 1+ ' dd defer! : t dd ; ' 1- ' dd defer!", &[(&[3], &[2])]),
    (": old 1 ; : t old ; : old 2 ; : u t old ; : t u ;", &[(&[], &[1, 2])]),
    (": im 5 ; immediate : t [ im ] literal im drop ;", &[]),
];

fn macros(wk: &mut Wk, i: u64) -> CaseResult {
    let (text, runs) = MACROS[(i % MACROS.len() as u64) as usize];
    let how = i / MACROS.len() as u64;
    for (args, want) in runs {
        let mut vm = wk.take_vm();
        ready(&mut vm, 20000);
        eval(&mut vm, "marker undo : go evaluate-input ;");
        clear_out(&mut vm);
        let a: String = args.iter().map(|x| format!("{} ", x)).collect();
        let full = match how {
            0 => format!("{} {} t", text, a),
            1 => format!("{} {} : u t ; u", text, a),
            2 => format!("go {} {} t", text, a),
            3 => format!("{} {} ' t execute", text, a),
            4 => format!("{} go {} t", text, a),
            _ => format!("{} {} t", text.to_uppercase().replace("[CHAR] A", "[CHAR] a").replace("CH A CH B", "CH a CH b"), a),
        };
        wk.note(&full);
        eval(&mut vm, &full);
        let o = obs(&mut vm);
        wk.trans(1);
        wk.trace();
        wk.state(H::new().s(&full));
        if o.err != 0 || o.s != *want || o.compiling {
            return fail(full, format!("expected {:?}, got {:?}", want, o));
        }
        reset(&mut vm);
        eval(&mut vm, "undo");
        wk.put_vm(vm);
    }
    Ok(())
}

/// Words in an unfinished definition: the immediate ones among them work on the stacks at once.
const BROKEN: &[&str] = &["i-drop", "i-push", "i-over", "i-many", "if-drop", "if-many", "if-push", "i-nip", "drop", "if", "then", "[", "]", "do", "loop", ";"];

/// The Forth-coded evaluate-input meets an error at the same word as the machine's own.
fn broken(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    let line: Vec<&str> = digits(i, BROKEN.len() as u64, n).into_iter().map(|d| BROKEN[d]).collect();
    let line = format!(": t 1 {} 2 nosuch", line.join(" "));
    let mut seen = vec![];
    for how in ["", "go "] {
        let mut vm = wk.take_vm();
        if !wk.store.contains_key(&3) || room(&mut vm) < 20000 {
            vm = new_vm();
            reset(&mut vm);
            eval(&mut vm, ": go evaluate-input ; : i-drop drop ; immediate : i-push 7 ; immediate : i-over over ; immediate : i-nip nip ; immediate : if-drop fdrop ; immediate : if-push 1e ; immediate \
                : i-many 66 0 do i loop ; immediate : if-many 66 0 do 1e loop ; immediate marker undo");
            wk.store.insert(3, Box::new(()));
        }
        reset(&mut vm);
        vm.c_stack().reset();
        let full = format!("{}{}", how, line);
        wk.note(&full);
        eval(&mut vm, &full);
        wk.trans(1);
        let e = err(&vm);
        let rest = vm.state().source_index + line.len() - full.len();
        seen.push((e, rest, tok(&mut vm)));
        recover(&mut vm);
        eval(&mut vm, "undo");
        reset(&mut vm);
        eval(&mut vm, "marker undo");
        if err(&vm) != 0 {
            return fail(full, "the machine does not work afterwards");
        }
        wk.put_vm(vm);
    }
    wk.state(H::new().s(&line));
    wk.trace();
    if seen[0] != seen[1] {
        return fail(line, format!("error, place and word {:?}, but through evaluate-input {:?}", seen[0], seen[1]));
    }
    Ok(())
}

fn tok(vm: &mut VM) -> String {
    vm.last_token().clone().unwrap_or_default()
}

/// Any cell as an execution token is executed or refused with an error.
fn tokens(wk: &mut Wk, i: u64) -> CaseResult {
    let mut b = bench(wk);
    let vm = &mut b.vm;
    let n = vm.wordlist().len() as isize;
    let x = match i {
        0..=199 => n + 1 + i as isize,
        200..=399 => -1 - (i as isize - 200),
        400..=462 => 1isize << (i - 400),
        463..=500 => isize::MAX - (i as isize - 463),
        _ => isize::MIN + (i as isize - 501),
    };
    if x >= 0 && x < n {
        wk.store.insert(0, b);
        return Ok(());
    }
    for (f, words) in [
        ("{} execute", 1),
        ("{} constant q : t q execute ; t", 3),
        ("go {} execute", 1),
        (": t {} execute ; t", 2),
        ("defer q {} ' q defer! q", 2),
    ] {
        // the first cell that is no token is the number of the words there are by then
        if x >= 0 && x < n + words {
            continue;
        }
        let text = format!("marker undo {}", f.replace("{}", &x.to_string()));
        wk.note(&text);
        let got = effect(vm, 0, &text);
        wk.trans(1);
        wk.trace();
        if got.0.err != -21 {
            return fail(text, format!("expected error -21, got {:?}", got.0));
        }
        eval(vm, "undo 1 2 +");
        let o = obs(vm);
        if o.err != 0 || o.s != [3] {
            return fail(text, format!("afterwards 1 2 + gives {:?}", o));
        }
        reset(vm);
    }
    for w in [">body", ">name"] {
        let text = format!("{} {}", x, w);
        wk.note(&text);
        let got = effect(vm, 2, &text);
        wk.trans(1);
        if got.0.err == 0 {
            return fail(text, "an invalid token is accepted");
        }
    }
    wk.state(H::new().u(i));
    wk.store.insert(0, b);
    Ok(())
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![
        Scope::new("every word, every form, three stacks", 3 * WORDS.len() as u64, 2, single),
        Scope::new("400 literals in 15 forms", 6000, 32, literals),
        Scope::new("compiling words built with postpone, in 6 ways", 6 * MACROS.len() as u64, 1, macros),
        Scope::new("invalid execution tokens", 540, 8, tokens),
        Scope::new("pairs of 20 words in all forms", (20 * 11u64).pow(2), 64, move |wk, i| sequence(wk, 20, 11, 2, i)),
    ];
    for n in 1..=if t { 5 } else { 4 } {
        scopes.push(Scope::new(
            &format!("unfinished definitions of {} words, read directly and through evaluate-input", n),
            16u64.pow(n as u32),
            128,
            move |wk, i| broken(wk, n, i),
        ));
    }
    if t {
        scopes.push(Scope::new("triples of 20 words in all forms", (20 * 11u64).pow(3), 512, move |wk, i| sequence(wk, 20, 11, 3, i)));
        scopes.push(Scope::new("sequences of 4 of 10 words in 5 forms", (10 * 5u64).pow(4), 512, move |wk, i| sequence(wk, 10, 5, 4, i)));
    } else {
        scopes.push(Scope::new("triples of 12 words in 6 forms", (12 * 6u64).pow(3), 512, move |wk, i| sequence(wk, 12, 6, 3, i)));
    }
    let plan: &[(usize, usize)] = if t { &[(1, 8), (2, 8), (3, 7), (4, 4)] } else { &[(1, 8), (2, 7), (3, 4)] };
    for &(n, fuel) in plan {
        let c = crate::c05::Count::new();
        let total = c.blocks(n);
        scopes.push(Scope::new(
            &format!("control structures of {} nodes, every word postponed by another, up to {} decisions", n, fuel),
            total,
            if n >= 4 { 2000 } else { 20 },
            move |wk, i| {
                thread_local!(static C: crate::c05::Count = crate::c05::Count::new());
                let b = wk.store.remove(&0);
                if let Some(x) = wk.store.remove(&7) {
                    wk.store.insert(0, x);
                } else {
                    wk.drop_vm();
                }
                let r = C.with(|c| crate::c05::program(wk, c, n, fuel, i, true));
                if let Some(x) = wk.store.remove(&0) {
                    wk.store.insert(7, x);
                }
                if let Some(b) = b {
                    wk.store.insert(0, b);
                }
                r
            },
        ));
    }
    Property {
        id: "C27",
        assumptions: vec![
            "words are not compared where the stack underflows (see C03) and words that parse are given their text in place".into(),
            "compile-only run-time words are not executed by their token".into(),
        ],
        scopes,
    }
}
