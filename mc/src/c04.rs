//! C04: memory words stay inside the data space.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;

/// Symbolic addresses: (name, value).
fn addresses(vm: &mut VM, t: bool) -> Vec<(String, usize)> {
    let (s, l, h) = (
        vm.data_space().start(),
        vm.data_space().limit(),
        vm.data_space().here(),
    );
    let mut v = vec![];
    let mut add = |n: &str, base: usize, k: isize| {
        let name = if k == 0 {
            n.to_string()
        } else {
            format!("{}{}{}", n, if k > 0 { "+" } else { "" }, k)
        };
        v.push((name, base.wrapping_add(k as usize)));
    };
    let w = if t { 40 } else { 18 };
    for k in -w..=w {
        add("start", s, k);
    }
    for k in -w..=w {
        add("limit", l, k);
    }
    for k in 0..=(if t { 24 } else { 9 }) {
        add("free", (h + 1024 + 15) & !15, k);
    }
    for k in [-4096, -65536, 4096, 65536] {
        add("start", s, k - 1);
        add("limit", l, k);
    }
    for k in -17..=17 {
        add("", 0, k);
    }
    for k in -3..=3 {
        add("max-n", isize::MAX as usize, k);
    }
    for k in [1isize << 32, 1 << 47, -(1 << 47), 1 << 48, 1 << 62] {
        v.push((format!("{}", k), k as usize));
    }
    assert_eq!(v.len(), if t { NA_T } else { NA_Q });
    v
}
const NA_Q: usize = 37 * 2 + 10 + 8 + 35 + 7 + 5;
const NA_T: usize = 81 * 2 + 25 + 8 + 35 + 7 + 5;

struct Cx {
    addrs: Vec<(String, usize)>,
    before: Vec<u8>,
}

fn cx(wk: &mut Wk, t: bool) -> (VM, Cx) {
    let mut vm = wk.take_vm();
    reset(&mut vm);
    let c = match wk.store.remove(&1) {
        Some(c) => *c.downcast::<Cx>().unwrap(),
        None => {
            let addrs = addresses(&mut vm, t);
            // A recognisable pattern in the free part of the data space.
            let (s, h) = (vm.data_space().start(), vm.data_space().here());
            let m = mem(&mut vm);
            for i in (h - s)..m.len() {
                m[i] = (i as u64).wrapping_mul(0x9E3779B97F4A7C15).to_be_bytes()[0] & 0x7f;
            }
            Cx { addrs, before: mem(&mut vm).to_vec() }
        }
    };
    (vm, c)
}

fn back(wk: &mut Wk, mut vm: VM, c: Cx) {
    mem(&mut vm).copy_from_slice(&c.before);
    wk.store.insert(1, Box::new(c));
    wk.put_vm(vm);
}

/// Does [a, a+n) lie in the data space?
fn inside(vm: &mut VM, a: usize, n: usize) -> bool {
    let (s, l) = (vm.data_space().start() as u128, vm.data_space().limit() as u128);
    (a as u128) >= s && a as u128 + n as u128 <= l
}

/// The first cell of the data space is reserved; whether it can be accessed is not specified.
fn reserved(vm: &mut VM, a: usize, n: usize) -> bool {
    let s = vm.data_space().start();
    let _ = n;
    a >= s && a < s + 8
}

const WORDS: &[&str] = &[
    "@", "!", "c@", "c!", "f@", "f!", "2@", "2!", "+!", "on", "off", "?", "count",
];

fn access(wk: &mut Wk, t: bool, word: &str, ai: usize, compiled: bool, via: u8) -> CaseResult {
    let (mut vm, c) = cx(wk, t);
    let (name, a) = c.addrs[ai].clone();
    let key = format!("{} {}{}", name, word, if compiled { " (compiled)" } else { "" });
    wk.note(&key);
    let s0 = vm.data_space().start();
    let xt = vm.find(word).unwrap();
    // operands: two cells under the address
    vm.s_stack().push(0x0102030405060708);
    vm.s_stack().push(0x1112131415161718);
    vm.s_stack().push(a as isize);
    vm.f_stack().push(6.5);
    let _ = via;
    if compiled {
        // run it from a definition: `execute` in a fixed word would not show the compiled form,
        // so the definition is made once per VM, before the snapshot was taken
        vm.s_stack().push(xt as isize);
        eval(&mut vm, "execute");
    } else {
        eval(&mut vm, word);
    }
    let o = obs(&mut vm);
    wk.trans(1);
    wk.trace();
    wk.state(H::new().s(&key).i(o.err).sl(&o.s));
    let (lo, hi) = (0x0102030405060708isize, 0x1112131415161718isize);
    let mut exp = c.before.clone();
    let rd = |b: &[u8], a: usize| -> isize {
        isize::from_ne_bytes(b[a - s0..a - s0 + 8].try_into().unwrap())
    };
    let fa = a.wrapping_add(7) & !7;
    // (range accessed, ok)
    let (ta, n) = match word {
        "c@" | "c!" | "count" => (a, 1),
        "2@" | "2!" => (a, 16),
        "f@" | "f!" => (fa, 8),
        _ => (a, 8),
    };
    let ok = inside(&mut vm, ta, n);
    let now = mem(&mut vm).to_vec();
    let r = (|| {
        if reserved(&mut vm, ta, n) {
            // only confinement: nothing but the accessed cells may have changed
            let k = ta - s0;
            let (a1, b1) = (k, (k + n).min(exp.len()));
            let mut e = exp.clone();
            e[a1..b1].copy_from_slice(&now[a1..b1]);
            if e != now {
                return fail(key.as_str(), "memory outside the accessed cells changed");
            }
            return Ok(());
        }
        if !ok {
            if o.err != -9 {
                return fail(
                    key.as_str(),
                    format!("expected invalid memory address (-9), got error {} stack {:x?}", o.err, o.s),
                );
            }
            // A composite word may have stored its first cell; nothing else.
            let mut e = exp.clone();
            if word == "2!" {
                for (x, k) in [(a, 8usize), (a.wrapping_add(8), 8)] {
                    if inside(&mut vm, x, k) {
                        e[x - s0..x - s0 + k].copy_from_slice(&now[x - s0..x - s0 + k]);
                    }
                }
            }
            if e != now {
                return fail(key.as_str(), "memory changed although the address was rejected");
            }
            if !o.s.is_empty() {
                return fail(key.as_str(), "the data stack was not cleared by the error");
            }
            return Ok(());
        }
        let i = ta - s0;
        let mut es: Vec<isize> = vec![];
        let mut ef = vec![6.5f64.to_bits()];
        let mut eo = String::new();
        match word {
            "@" => es.extend([lo, hi, rd(&exp, a)]),
            "c@" => es.extend([lo, hi, exp[i] as isize]),
            "count" => es.extend([lo, hi, a as isize + 1, exp[i] as isize]),
            "2@" => es.extend([lo, hi, rd(&exp, a + 8), rd(&exp, a)]),
            "!" => {
                es.push(lo);
                exp[i..i + 8].copy_from_slice(&hi.to_ne_bytes());
            }
            "c!" => {
                es.push(lo);
                exp[i] = hi as u8;
            }
            "+!" => {
                es.push(lo);
                let v = rd(&exp, a).wrapping_add(hi);
                exp[i..i + 8].copy_from_slice(&v.to_ne_bytes());
            }
            "on" => {
                es.extend([lo, hi]);
                exp[i..i + 8].copy_from_slice(&(-1isize).to_ne_bytes());
            }
            "off" => {
                es.extend([lo, hi]);
                exp[i..i + 8].copy_from_slice(&0isize.to_ne_bytes());
            }
            "2!" => {
                exp[i..i + 8].copy_from_slice(&hi.to_ne_bytes());
                exp[i + 8..i + 16].copy_from_slice(&lo.to_ne_bytes());
            }
            "?" => {
                es.extend([lo, hi]);
                let v = rd(&exp, a);
                // base itself may be the cell that is shown
                eo = format!("{} ", v);
            }
            "f@" => {
                es.extend([lo, hi]);
                ef.push(rd(&exp, ta) as u64);
            }
            "f!" => {
                es.extend([lo, hi]);
                ef.clear();
                exp[i..i + 8].copy_from_slice(&6.5f64.to_ne_bytes());
            }
            _ => panic!(),
        }
        if o.err != 0 {
            return fail(key.as_str(), format!("a valid address was rejected with error {}", o.err));
        }
        // number output depends on base, which the word itself may have overwritten
        if o.s != es || o.f != ef || o.out != eo {
            return fail(
                key.as_str(),
                format!("expected {:x?} {:x?} {:?}, got {:x?} {:x?} {:?}", es, ef, eo, o.s, o.f, o.out),
            );
        }
        if exp != now {
            let k = exp.iter().zip(&now).position(|(a, b)| a != b).unwrap();
            return fail(key.as_str(), format!("memory differs from what was stored, first at start+{}", k));
        }
        Ok(())
    })();
    back(wk, vm, c);
    r
}

const LENS: &[isize] = &[
    0, 1, 2, 7, 8, 9, 15, 16, 17, 64, 256, 4096, 65535, 65536, 65537, 1 << 32, 1 << 62, isize::MAX - 1,
    isize::MAX, -1, -2, -8, isize::MIN, isize::MIN + 1,
];

/// Block words: move fill type _type write-file read-file and the path arguments of the file words.
fn block(wk: &mut Wk, t: bool, word: &str, ai: usize, bi: usize, li: usize) -> CaseResult {
    let (mut vm, c) = cx(wk, t);
    let (an, a) = c.addrs[ai].clone();
    let (bn, b) = c.addrs[bi].clone();
    let u = LENS[li];
    let s0 = vm.data_space().start();
    let mut exp = c.before.clone();
    let key = match word {
        "move" => format!("{} {} {} move", an, bn, u),
        w => format!("{} {} {}", an, u, w),
    };
    wk.note(&key);
    let in_a = u < 0 || inside(&mut vm, a, u as usize);
    let in_b = u < 0 || inside(&mut vm, b, u as usize);
    let res = reserved(&mut vm, a, 0) || (word == "move" && reserved(&mut vm, b, 0));
    if word == "fill" && u > 0 && a >= s0 && a < vm.data_space().here() {
        // fill is itself a word in the dictionary; overwriting the dictionary is excluded
        back(wk, vm, c);
        return Ok(());
    }
    let mut touched: Option<(usize, usize)> = None;
    match word {
        "move" => {
            vm.s_stack().push3(a as isize, b as isize, u);
            if u > 0 && in_a && in_b {
                let (i, j, n) = (a - s0, b - s0, u as usize);
                let src = exp[i..i + n].to_vec();
                exp[j..j + n].copy_from_slice(&src);
                touched = Some((j, n));
            }
        }
        "fill" => {
            vm.s_stack().push3(a as isize, u, 0x41);
            if u > 0 && in_a {
                let (i, n) = (a - s0, u as usize);
                for x in &mut exp[i..i + n] {
                    *x = 0x41;
                }
                touched = Some((i, n));
            }
        }
        _ => {
            vm.s_stack().push(a as isize);
            vm.s_stack().push(u);
        }
    }
    eval(&mut vm, word);
    let o = obs(&mut vm);
    let now = mem(&mut vm).to_vec();
    wk.trans(1);
    wk.trace();
    wk.state(H::new().s(&key).i(o.err).u(o.out.len() as u64));
    let r = (|| {
        if res {
            let mut e = c.before.clone();
            let w = if word == "move" { b } else { a };
            if word != "type" && u > 0 && inside(&mut vm, w, 1) {
                let j = w - s0;
                let n = (u as usize).min(e.len() - j);
                e[j..j + n].copy_from_slice(&now[j..j + n]);
            }
            if e != now {
                return fail(key.as_str(), "memory outside the block changed");
            }
            return Ok(());
        }
        match word {
            "move" | "fill" => {
                if u <= 0 {
                    if o.err != 0 || now != c.before || !o.s.is_empty() {
                        return fail(key.as_str(), format!("a count of {} must do nothing, got error {}", u, o.err));
                    }
                    return Ok(());
                }
                let good = if word == "move" { in_a && in_b } else { in_a };
                if good {
                    if o.err != 0 || !o.s.is_empty() || now != exp {
                        return fail(key.as_str(), format!("block not stored as requested (error {})", o.err));
                    }
                } else {
                    if o.err != -9 {
                        return fail(key.as_str(), format!("expected invalid memory address, got error {}", o.err));
                    }
                    let mut e = c.before.clone();
                    if word == "fill" && inside(&mut vm, a, 1) {
                        // fill stores character by character up to the first bad address
                        let j = a - s0;
                        for k in j..e.len() {
                            if now[k] == 0x41 {
                                e[k] = 0x41;
                            }
                        }
                    }
                    if e != now {
                        return fail(key.as_str(), "memory changed although the block was rejected");
                    }
                }
                let _ = touched;
            }
            "type" => {
                let good = u >= 0 && inside(&mut vm, a, u as usize);
                if good {
                    let want = String::from_utf8_lossy(&c.before[a - s0..a - s0 + u as usize]).into_owned();
                    if o.err != 0 || o.out != want || !o.s.is_empty() {
                        return fail(key.as_str(), format!("text not shown as stored (error {})", o.err));
                    }
                } else if u == 0 {
                    if o.err != 0 && o.err != -9 || !o.out.is_empty() {
                        return fail(key.as_str(), format!("error {}", o.err));
                    }
                } else if o.err != -9 || !o.out.is_empty() {
                    return fail(key.as_str(), format!("expected invalid memory address, got error {}", o.err));
                }
                if now != c.before {
                    return fail(key.as_str(), "type changed memory");
                }
            }
            _ => panic!(),
        }
        Ok(())
    })();
    back(wk, vm, c);
    r
}

/// File words with buffers and names anywhere.
fn files(wk: &mut Wk, t: bool, which: usize, ai: usize, li: usize) -> CaseResult {
    let dir = wk.scratch.clone();
    let path = format!("{}/f", dir);
    let content: Vec<u8> = (0..40u8).map(|i| b'a' + i % 26).collect();
    std::fs::write(&path, &content).unwrap();
    let (mut vm, c) = cx(wk, t);
    let (an, a) = c.addrs[ai].clone();
    let u = LENS[li];
    let s0 = vm.data_space().start();
    let word = ["read-file", "write-file", "open-file", "create-file", "delete-file", "open-source"][which];
    let key = format!("{} {} {}", an, u, word);
    wk.note(&key);
    let mut r = Ok(());
    let ok = u >= 0 && inside(&mut vm, a, u as usize);
    let bad = |m: String| fail(key.as_str(), m);
    // a file opened for reading and writing through the words themselves
    let p = vm.data_space().limit() - 4096;
    let mut opened = 0;
    if which < 2 || which == 5 {
        poke(&mut vm, p, path.as_bytes());
        vm.s_stack().push3(p as isize, path.len() as isize, 2);
        eval(&mut vm, "open-file");
        let v = vm.s_stack().as_slice().to_vec();
        if v.len() != 2 || v[1] != 0 {
            back(wk, vm, c);
            return fail(key.as_str(), format!("cannot open the scratch file: {:?}", v));
        }
        opened = v[0];
        vm.s_stack().reset();
        mem(&mut vm).copy_from_slice(&c.before);
    }
    let before = c.before.clone();
    match which {
        0 => {
            vm.s_stack().push3(a as isize, u, opened);
            eval(&mut vm, word);
            let o = obs(&mut vm);
            let now = mem(&mut vm).to_vec();
            if o.s.len() != 2 || o.err != 0 {
                r = bad(format!("stack {:?} error {}", o.s, o.err));
            } else if ok {
                let n = (u as usize).min(40);
                let mut e = before.clone();
                e[a - s0..a - s0 + n].copy_from_slice(&content[..n]);
                if reserved(&mut vm, a, 0) {
                    e[..8].copy_from_slice(&now[..8]);
                }
                if o.s != [n as isize, 0] || e != now {
                    r = bad(format!("read {:?}, memory as expected: {}", o.s, e == now));
                }
            } else if o.s[1] == 0 || o.s[0] != 0 || now != before {
                if u != 0 || now != before {
                    r = bad(format!("expected an error and untouched memory, got {:?}, untouched: {}", o.s, now == before));
                }
            }
        }
        1 => {
            vm.s_stack().push3(a as isize, u, opened);
            eval(&mut vm, word);
            let o = obs(&mut vm);
            let f = std::fs::read(&path).unwrap();
            if o.s.len() != 1 || o.err != 0 {
                r = bad(format!("stack {:?} error {}", o.s, o.err));
            } else if ok {
                let n = u as usize;
                let mut e = content.clone();
                if n > e.len() {
                    e.resize(n, 0);
                }
                e[..n].copy_from_slice(&before[a - s0..a - s0 + n]);
                if o.s != [0] || f != e {
                    r = bad(format!("wrote {:?}; file has {} bytes", o.s, f.len()));
                }
            } else if (o.s[0] == 0 && u != 0) || f != content {
                r = bad(format!("expected an error and an untouched file, got {:?}", o.s));
            }
            if r.is_ok() && mem(&mut vm).to_vec() != before {
                r = bad("memory changed".into());
            }
        }
        5 => {
            vm.s_stack().push3(a as isize, u, opened);
            eval(&mut vm, word);
            let o = obs(&mut vm);
            if ok || u == 0 {
                if !((o.err == 0 && o.s.len() == 1) || u == 0) {
                    r = bad(format!("valid path rejected: {:?}", o));
                }
                let id = o.s.get(0).cloned().unwrap_or(0);
                if id > 0 && ok && r.is_ok() {
                    reset(&mut vm);
                    vm.s_stack().push(id);
                    eval(&mut vm, ".source-path");
                    let shown = out(&mut vm);
                    let want = String::from_utf8_lossy(&before[a - s0..a - s0 + u as usize]).into_owned();
                    if shown != want {
                        r = bad("the source path is not the given text".into());
                    }
                }
            } else if o.err != -9 && o.err != -24 {
                r = bad(format!("expected an error, got {:?}", o));
            }
            if r.is_ok() && mem(&mut vm).to_vec() != before {
                r = bad("memory changed".into());
            }
            vm = new_vm();
            wk.store.clear();
            wk.put_vm(vm);
            wk.trans(1);
            wk.trace();
            return r;
        }
        _ => {
            // names: the text at `a` is the scratch path when it fits
            let fits = ok && u as usize <= 256 && u as usize >= path.len() && !reserved(&mut vm, a, 0)
                && a - s0 >= 64;
            let mut name = vec![];
            if fits {
                // make the name exactly u characters by padding with "./"
                let pad = u as usize - path.len();
                let mut full = dir.clone().into_bytes();
                full.extend(std::iter::repeat(b'/').take(pad + 1));
                full.extend(b"f");
                poke(&mut vm, a, &full);
                name = full;
            }
            let before = mem(&mut vm).to_vec();
            if which == 4 {
                vm.s_stack().push2(a as isize, u);
            } else {
                vm.s_stack().push3(a as isize, u, 2);
            }
            let harmless = fits || !ok || u as usize > 256;
            if harmless {
                eval(&mut vm, word);
                let o = obs(&mut vm);
                let n = if which == 4 { 1 } else { 2 };
                if o.s.len() != n || o.err != 0 {
                    r = bad(format!("stack {:?} error {}", o.s, o.err));
                } else if fits {
                    if o.s[n - 1] != 0 {
                        r = bad(format!("{:?} rejected: {:?}", String::from_utf8_lossy(&name), o.s));
                    } else if which == 4 && std::path::Path::new(&path).exists() {
                        r = bad("file not deleted".into());
                    } else if which == 3 && std::fs::metadata(&path).unwrap().len() != 0 {
                        r = bad("file not recreated empty".into());
                    }
                } else if o.s[n - 1] == 0 {
                    r = bad(format!("expected an error, got {:?}", o.s));
                } else if std::fs::read(&path).ok() != Some(content.clone()) {
                    r = bad("the scratch file changed".into());
                }
                if r.is_ok() && mem(&mut vm).to_vec() != before {
                    r = bad("memory changed".into());
                }
            }
        }
    }
    vm.files_mut().clear();
    wk.trans(1);
    wk.trace();
    wk.state(H::new().s(&key));
    back(wk, vm, c);
    r
}

/// move: every pair of overlapping blocks in a small window.
fn overlap(wk: &mut Wk, t: bool, i: u64, w: u64) -> CaseResult {
    let (mut vm, c) = cx(wk, t);
    let (a, b, u) = ((i % w) as usize, ((i / w) % w) as usize, (i / w / w) as usize);
    let base = vm.data_space().limit() - 64;
    let s0 = vm.data_space().start();
    let mut e = c.before.clone();
    for k in 0..64 {
        e[base - s0 + k] = 128 + k as u8;
    }
    mem(&mut vm).copy_from_slice(&e);
    vm.s_stack().push3((base + a) as isize, (base + b) as isize, u as isize);
    let src = e[base - s0 + a..base - s0 + a + u].to_vec();
    e[base - s0 + b..base - s0 + b + u].copy_from_slice(&src);
    eval(&mut vm, "move");
    let o = obs(&mut vm);
    let key = format!("move {} characters from offset {} to offset {}", u, a, b);
    wk.note(&key);
    let ok = o.err == 0 && mem(&mut vm).to_vec() == e;
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i));
    back(wk, vm, c);
    if !ok {
        return fail(key, "the destination does not hold what the source held");
    }
    Ok(())
}

/// !token and word store inside the data space or not at all.
fn token(wk: &mut Wk, t: bool, i: u64) -> CaseResult {
    let (mut vm, c) = cx(wk, t);
    let n = c.addrs.len();
    let (ai, li) = ((i as usize) % n, i as usize / n);
    let len = [0usize, 1, 7, 30, 255][li];
    let (name, a) = c.addrs[ai].clone();
    let key = format!("a token of {} characters, {} !token", len, name);
    wk.note(&key);
    let tok: String = std::iter::repeat('k').take(len).collect();
    vm.set_last_token(tok.clone());
    vm.s_stack().push(a as isize);
    let xt = vm.find("!token").unwrap();
    vm.execute_word(xt);
    let o = obs(&mut vm);
    let s0 = vm.data_space().start();
    let now = mem(&mut vm).to_vec();
    let mut e = c.before.clone();
    let r = if o.err == 0 {
        if !inside(&mut vm, a, len + 1) {
            fail(key.as_str(), "stored outside the data space")
        } else {
            e[a - s0] = len as u8;
            e[a - s0 + 1..a - s0 + 1 + len].copy_from_slice(tok.as_bytes());
            if e != now {
                fail(key.as_str(), "not stored as a counted string")
            } else {
                Ok(())
            }
        }
    } else if o.err != -9 {
        fail(key.as_str(), format!("error {}", o.err))
    } else if e != now {
        fail(key.as_str(), "memory changed although the address was rejected")
    } else if inside(&mut vm, a, len + 1 + 8) && !reserved(&mut vm, a, 0) {
        fail(key.as_str(), "a valid address was rejected")
    } else {
        Ok(())
    };
    vm.set_last_token(String::with_capacity(64));
    wk.trans(1);
    wk.trace();
    wk.state(H::new().u(i).i(o.err));
    back(wk, vm, c);
    r
}

pub fn property(t: bool) -> Property {
    let na = (if t { NA_T } else { NA_Q }) as u64;
    let nl = LENS.len() as u64;
    let w = if t { 24 } else { 14 };
    let mut scopes = vec![
        Scope::new("memory words x boundary addresses, interpreted and through execute", WORDS.len() as u64 * na * 2, 256, move |wk, i| {
            let j = i / 2;
            access(wk, t, WORDS[(j / na) as usize], (j % na) as usize, i % 2 == 1, 0)
        }),
        Scope::new("move: boundary addresses x boundary addresses x lengths", na * na * nl, 1024, move |wk, i| {
            block(wk, t, "move", (i % na) as usize, ((i / na) % na) as usize, (i / na / na) as usize)
        }),
        Scope::new("fill: boundary addresses x lengths", na * nl, 64, move |wk, i| {
            // a loop over a valid range of up to 64K and up to the first bad address
            block(wk, t, "fill", (i % na) as usize, 0, (i / na) as usize)
        }),
        Scope::new("type: boundary addresses x lengths", na * nl, 64, move |wk, i| {
            block(wk, t, "type", (i % na) as usize, 0, (i / na) as usize)
        }),
        Scope::new("move: all overlaps in a window", w * w * (64 - w), 512, move |wk, i| overlap(wk, t, i, w)),
        Scope::new("!token: boundary addresses x token lengths", na * 5, 64, move |wk, i| token(wk, t, i)),
    ];
    for k in 0..6 {
        scopes.push(Scope::new(
            &format!(
                "{}: boundary addresses x lengths",
                ["read-file", "write-file", "open-file", "create-file", "delete-file", "open-source"][k]
            ),
            na * nl,
            32,
            move |wk, i| files(wk, t, k, (i % na) as usize, (i / na) as usize),
        ));
    }
    Property {
        id: "C04",
        assumptions: vec![
            "the first reserved cell of the data space is left open: it may be readable or not".into(),
            "fill over the dictionary itself is excluded (fill is a high-level word that would overwrite its own code)".into(),
            "addresses are enumerated around the borders of the data space, around zero and around the borders of the integer range".into(),
        ],
        scopes,
    }
}
