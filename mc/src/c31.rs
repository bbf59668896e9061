//! C31: what a text does depends on its operands, not on where it stands: what lies below on the stacks, how deep
//! the calls are, which task runs it, what else the dictionary holds, where in which source it is read, the number
//! base, an open definition around it, what went on before.
use crate::engine::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::loader::HasLoader;
use rtforth::memory::Memory;
use std::collections::HashMap;

const STACKS: &[(&[isize], &[f64])] =
    &[(&[9, -4, 2, 7, 3], &[1.5, -2.25, 4.0]), (&[1, 0, isize::MIN, -1, 65], &[0.0, 0.5, -1.0]), (&[], &[2.5, -1.0, 3.0]), (&[3, 8, -6, 5, 2], &[])];

/// Words on at most three floats and no cells.
const FLOATY: &[&str] = &[
    "fdup", "fdrop", "fswap", "fover", "frot", "fnip", "f+", "f-", "f*", "f/", "fnegate", "fabs", "f<", "f>", "f0<", "f0=", "f~", "fmin", "fmax", "f>s", "f.", "fsqrt", "floor", "fround", "fceil", "fsin", "fcos",
    "ftan", "fasin", "facos", "fatan", "fatan2", "f**", "fsincos", "meter", "mm", "um", "deg", "rad", "hr", "minute", "sec", "msec", "usec", "mm/min", "mm/sec", "um/msec", "rpm", "hz", "1/sec", "h.r", "f.r", "drop 1 fpick",
    "1e 2e f/ f>s", "3.25e f.",
];

/// Words on at most five cells and three floats, which neither read the input nor the depth.
const WORDS: &[&str] = &[
    "dup", "drop", "swap", "over", "rot", "-rot", "nip", "tuck", "?dup", "2dup", "2drop", "2swap", "2over", "1+", "1-", "+",
    "-", "*", "/", "mod", "/mod", "negate", "abs", "min", "max", "and", "or", "xor", "invert", "lshift", "rshift", "=", "<>",
    "<", ">", "<=", ">=", "0=", "0<", "0>", "0<>", "within", "true", "false", "bl", "cells", "cell+", "chars",
    "char+", "aligned", "2*", "2/", "emit", ".", "cr", "space", "h.", "fdup", "fdrop", "fswap", "fover", "frot", "fnip", "f+", "f-", "f*", "f/",
    "fnegate", "fabs", "f<", "f>", "f0<", "f0=", "f~", "fmin", "fmax", "s>f", "f>s", "f.", "fsqrt", "floor", "fround", "fceil", "fsin", "fcos", "ftan", "fasin", "facos", "fatan",
    "fatan2", "f**", "fsincos", "pick", "noop", "base", "decimal", "hex", "count", "@", "c@", "2@", "f@", "!", "abort", "max-n", "bounds", "/string", "?stacks",
    "aligned", "faligned", "floats", "float+", "drop 1 fpick", "spaces", ".r", "f.r", "not", "pi",
    "u-colon", "u-const", "u-var", "u-2const", "u-fconst", "u-does", "u-defer", "u-create", "u-2var", "u-local", "u-exit", "u-loop", "u-rec",
    "u-ploop", "u-leave", "u-case", "u-while", "u-nest", "u-str", "u-goto", "u-call", "u-field", "u-mem", "u-fill", "u-move",
    "meter", "mm", "um", "deg", "rad", "hr", "minute", "sec", "msec", "usec", "mm/min", "mm/sec", "um/msec", "rpm", "hz", "1/sec", "h.r", "max-u",
    "u-buf @", "u-buf ?", "u-buf on u-buf @", "u-buf off u-buf @", "u-append", "u-io", "u-2r", "u-rr", "u-xt", "v-xt", "u-src", "v-src", "v-io", "v-ploop", "v-leave", "v-while", "v-nest", "v-goto", "v-j", "v-qdo", "v-exit", "v-def", "v-float", "v-str", "u-again", "u-quit", "u-emit", "u-def2", "u-flit", "u-abs", "u-floops", "u-j",
    "1 2 3 swap rot", "5 u-case 6 u-case", "7 u-var ! u-var @", "s>f s>f f+ f.", "1e 2e f/ f>s", "12 .", "-7 3 /mod", "255 h.", "65 emit 66 emit", "3 spaces 4 .", "1 2 2dup + -rot",
    "123456789012 dup *", "nosuch", "1 0 /", "-5 @", "' dup execute", "9 u-const +", "'a'", "3.25e f.", "u-str type",
];

const USER: &str = ": u-colon 2 + ;| 11 constant u-const| variable u-var| 5 6 2constant u-2const| 2.5e fconstant u-fconst|\
: mk create , does> @ + ;| 100 mk u-does|  defer u-defer ' dup ' u-defer defer!|  create u-create 1 , 2 ,|  2variable u-2var|\
: u-local >r dup r> swap ;|  : u-exit dup 0< if exit then 1+ ;|  : u-loop 3 0 do i + loop ;|\
: u-rec dup 0> if 2/ recurse else drop then ;| : u-ploop 10 -5 do i . 3 +loop 0 5 do i . -2 +loop ;|\
: u-leave 9 0 do i 4 = if leave then i . loop ;| : u-case case 5 of 50 endof 6 of 60 endof 7 swap endcase ;|\
: u-while 5 begin dup while dup . 1- repeat drop begin 1 until ;| : u-nest 3 0 do 2 0 do i j + . loop loop ;|\
: u-str s\" ab\u{4e2d}c\" ;| : u-goto [ 0labels ] 3 [ 1 ] label dup . 1- dup if [ 1 ] goto then drop ;|\
: u-call 1 [ 0labels ] [ 1 ] call [ 1 ] call exit [ 1 ] label 10 + ;| 0 1 cells +field u-f1 1 cells +field u-f2 constant u-size| : u-field u-size 0 u-f2 ;|\
create u-buf 64 allot u-buf 64 66 fill| : u-mem 77 u-buf ! u-buf @ 1 u-buf c! u-buf c@ 3 u-buf +! u-buf @ ;| : u-fill u-buf 9 65 fill u-buf 9 type ;|\
: u-append u-buf 9 65 fill 2 u-buf c! s\" xy\" u-buf append u-buf count type ;| : u-again 0 begin 1+ dup 5 > if exit then again ;|\
: u-io s\" @/io1\" r/w create-file drop dup >r s\" ab cd\" rot write-file drop r@ file-size 2drop . 0 0 r@ reposition-file drop u-buf 3 r@ read-file drop u-buf swap type r@ file-position 2drop . r> close-file drop s\" @/io1\" delete-file drop s\" @/io1\" r/o open-file nip 0< ;|\
: u-xt 0xtime utime 50 - ['] dup (xtime) utime 20 - ['] u-colon (xtime) .xtime 0xtime .xtime ;| : v-xt utime ['] dup (xtime) 0xtime ;| : u-src s\" @/g0\" 2dup r/o open-file drop open-source >r r@ load-line . . r@ .source-line r@ load-line . . r@ .source-line r@ .source-path r> close-source ;|\
: v-src s\" @/g0\" 2dup r/o open-file drop open-source >r r@ load-line drop r@ load-line drop r> close-source ;|\
: v-io s\" @/io2\" r/w create-file drop dup >r s\" ab cd\" rot write-file drop r@ file-size 2drop 0 0 r@ reposition-file drop u-buf 3 r@ read-file drop r@ file-position 2drop r> close-file drop u-buf c@ s\" @/io2\" delete-file ;|\
: v-ploop 0 10 -5 do i + 3 +loop 0 5 do i + -2 +loop ;| : v-leave 0 9 0 do i 4 = if leave then i + loop 7 0 do i 2 > if leave leave then 1+ loop ;|\
: v-while 0 5 begin dup while swap over + swap 1- repeat drop begin 1+ dup 20 > until ;| : v-nest 0 3 0 do 2 0 do i j + + loop loop ;|\
: v-goto [ 0labels ] 3 [ 1 ] label 1- dup if [ 1 ] goto then [ 2 ] call exit [ 2 ] label 10 + ;| : v-j 0 2 0 do 3 0 do j 10 * i + + loop loop ;|\
: v-qdo 0 3 3 ?do 9 + loop 5 3 ?do i + loop ;| : v-exit 5 0 do i 3 = if i unloop exit then loop 9 ;| : v-def ['] 1+ ['] u-defer defer! 5 u-defer u-colon u-rec 3 u-does ;|\
: v-float 1.5e 2.5e f+ fdup f* 2 s>f f/ f>s 1.5e f0< ;| : v-str s\" ab\" nip s\" c\u{4e2d}\" swap c@ + + ;| : u-2r 5 6 2>r 2r@ + 2r> - ;| : u-rr >r >r r@ r> r> rot drop ;| : u-quit 1 2 3 0= if 4 abort then 5 1- ;|\
: u-emit 70 60 do i emit 3 +loop ;| defer u-d2 : u-def2 ['] 1+ ['] u-d2 defer! 5 u-d2 ['] u-d2 defer@ execute ;| : u-flit 1.5e 2.5e f+ f. -0.25e ;| : u-abs -5 abs 3 ['] abs execute ;|\
: u-floops 3 0 do i s>f 1.5e f* f. loop ;| : u-j 2 0 do 3 0 do j 10 * i + . loop loop ;| : u-move u-fill s\" xyz\" u-buf 3 + swap move u-buf 9 type ;| : go evaluate-input ;| : nest dup 0> if 1- recurse else drop go then ;|\
0 constant n0 1 constant n1 6 constant n6 20 constant n20";

/// Texts that define, parse and fail; each begins with nothing on the stacks.
const TEXTS: &[&str] = &[
    ": t 5 0 do i loop ; t", ": t 10 0 do i 5 = if leave then i . loop ; t", ": t begin dup while dup . 1- repeat ; 5 t", ": t 3 0 do 2 0 do j i . . loop loop ; t",
    ": t case 1 of 10 endof 2 of 20 endof 30 swap endcase ; 1 t 2 t 3 t", ": t dup 1 > if dup 1- recurse * then ; 6 t", ": t 3 3 ?do i loop 9 ; t", ": t 0 10 do i -3 +loop ; t",
    ": t if 1 else 2 then ; 0 t -1 t", ": t 1 if 2 if 3 then then ; t", ": k create , , does> 2@ ; 7 8 k t t", ": k constant ; 5 k t t", "variable t 5 t ! t @ 1 t +! t @", "5 constant t t t +",
    "1 2 2constant t t", "2.5e fconstant t t f.", "create t 1 , 2 , 3 , t @ t cell+ @", "2variable t 3 4 t 2! t 2@", "fvariable t 2.5e t f! t f@ f.", "defer t ' 1+ ' t defer! 5 t",
    "marker m1 : t 1 ; t m1", "marker m1 : t 1 ; m1 t", ": t s\" ab c\" type ; t", ": t .\" x\u{4e2d}z\" ; t", "( c 1 ) 2 \\ 3", ": t 1 ( 2 ) 3 \\ 4", "char A char \u{4e2d}", ": t [char] A ; t",
    ": t [ 0labels ] 0 [ 3 ] label 1+ dup 5 < if [ 3 ] goto then ; t", ": t 1 [ 0labels ] [ 2 ] call exit [ 2 ] label 8 + ; t", ": a 5 ; : t postpone a ; immediate : u t ; u", ": t 5 ; immediate : u t 6 ; u",
    ": t [ 2 3 + ] literal ; t", ": t [ 1 2 ] 2literal ; t", ": t [ 1.5e ] fliteral ; t f.", "parse-word ab\u{e9} .token", "32 word abc count type", "' dup .word", "5 ' 1+ execute", ": t ['] 1+ execute ; 5 t",
    "1e2 f. -1.5e-3 f. 1.e f.", "-123 . 'a' . $1f . 0x1F . %101 . 12345678901234567890", "hex ff decimal .", "17 hex . decimal", "5 3 .r -5 4 .r 1.25e 8 2 f.r", "here 5 allot here swap -", "1 aligned 9 aligned",
    "here 3 c, here swap - align", "max-n max-n +", "nosuch", ": t nosuch ; t", ": t if ; t", ": t then ;", "1 0 /", ": t 1 0 mod ; t", "-1 @", "abort", ": t abort ; t 5", "if", ";", ": t [ if ] ;", "-1 execute",
    "s\" nofile\" included", "include nosuchfile 5", "5 .error error", "depth drop", ": t exit 5 ; 4 t", ": t >r 1 r@ r> ; 5 t", ": t 2>r 2r@ 2r> ; 5 6 t",
    ": t 5 ; compile-only t", ": t 5 ; compile-only : u t ; u", ": t [ 5 ] ; compile-only immediate t", "' dup >name count drop drop", "create t 7 , ' t >body @", "1 2 3 2, , here 3 cells - @", "2.5e f, here 8 - f@ f.", "falign here 1 allot falign here swap -",
    "32 _skip 5", "char x _skip xxx 5", "32 parse ab cd", "defer t ' 1+ ' t defer! ' t defer@ ' 1+ =", ": t begin 1+ dup 9 > if exit then again ; 5 t", "create t 3 allot 2 t c! 88 c, t c@", "variable t t on t @ t off t @", ": t compiling? ; t compiling?",
    "include @/g0", "include @/g1", "include @/g2", "include @/g0 include @/g0", ": t s\" @/g0\" included ; t", "s\" @/g3\" r/w create-file drop dup s\" abc\" rot write-file drop close-file s\" @/g3\" delete-file", "1 parse-word xt !token .token", "parse-word dup .token", "parse-word zz token-empty?",
    "3 0 do i loop", "5 >r", "s\" \" type", ": t s\" \" ; t nip", ".\" ab\"", "5 [char] a", "]", "] 5", "[", "recurse", "does> 5", "'", "' nosuch", "create", ":", "constant", "marker", "variable", "char", ": t [char] ;", ": t postpone ;", ": t ['] ;", 
    ": t 1 0 do leave loop 5 ; t", ": t 5 0 do i 3 = if unloop exit then i loop ; t", ": t 0 if 1 else 0 if 2 else 3 then then ; t", ": t ; immediate : u t 5 ; u", "0error error", ": t 5 max-n 1+ - ; t", "1.5e 2 s>f f/ f.", "1e400 f.", "1e f.", "1e-5 f.", ".5e", "5.", "+5", "$-5", "-$5", "'ab'", "''", "%2", "#12", "0x", 
    ": T 5 ; t T", ": t 1 ; : t t 1+ ; t", ": t ; ' t execute", "create a : t 1 ; t", ": t unloop ;", ": a 1 ; : b a a + ; : c b b + ; : d c c + ; d", "0 value", "0labels 5", ": t 70 0 do loop 5 ; t", ": t 300 0 do loop 6 ; t",
    "1 2 3 4 5 6 7 8 + + + + + + +", "words", ".memory", "\" abc\"", "c\" abc\" count type", "(", ".( ab)", "s\" abc\" type", "utime drop mtime drop",
];

#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct Ctx {
    cells: usize,
    floats: usize,
    calls: usize,
    task: usize,
    dict: usize,
    place: usize,
    file: usize,
    open: usize,
    base: usize,
    before: usize,
    times: usize,
}

const CELLS: &[usize] = &[0, 1, 2, 3, 8, 17, 33, 45];
const FLOATS: &[usize] = &[0, 1, 2, 5, 20, 45];
const CALLS: &[usize] = &[0, 1, 6, 20];
const TASKS: usize = 5;
const DICTS: usize = 13;
const PLACES: usize = 9;
const FILES: usize = 9;
/// 48 of the 64 places of the control stack.
const IFS: &str = "if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if if";
const THENS: &str = "then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then then";
const OPENS: usize = 7;
const BASES: &[isize] = &[10, 16, 2, 8, 36, 1];
const BEFORE: &[&str] = &["", "nosuch", ": a 1 if 2 do", ": a [ 0labels 5 ] goto [ 6 ] label ;", "1 0 /", "abort", ": a s\" unfinished", "include nosuchfile", "hex 5 nosuch", "then", "dup drop drop drop drop"];
const TIMES: &[usize] = &[1, 2, 30, 300];

impl Ctx {
    fn ncells(&self) -> usize {
        if self.cells >= 100 { self.cells - 100 } else { CELLS[self.cells] }
    }
    fn nfloats(&self) -> usize {
        if self.floats >= 100 { self.floats - 100 } else { FLOATS[self.floats] }
    }
    const AXES: [usize; 11] = [8, 6, 4, TASKS, DICTS, PLACES, FILES, OPENS, 6, 11, 4];
    fn set(&mut self, axis: usize, level: usize) {
        *[
            &mut self.cells, &mut self.floats, &mut self.calls, &mut self.task, &mut self.dict, &mut self.place, &mut self.file, &mut self.open, &mut self.base,
            &mut self.before, &mut self.times,
        ][axis] = level;
    }
}

fn contexts(n: usize) -> Vec<Ctx> {
    fn go(n: usize, from: usize, c: Ctx, out: &mut Vec<Ctx>) {
        if n == 0 {
            out.push(c);
            return;
        }
        for a in from..11 {
            for l in 1..Ctx::AXES[a] {
                let mut d = c;
                d.set(a, l);
                // a task has no source of its own to be read in
                if d.task > 0 && (d.place > 0 || d.file > 0 || d.open > 0) {
                    continue;
                }
                go(n - 1, a + 1, d, out);
            }
        }
    }
    let mut v = vec![];
    go(n, 0, Ctx::default(), &mut v);
    v
}

struct Bench {
    vm: VM,
    words: usize,
    here: usize,
    mem: Vec<u8>,
    want: HashMap<usize, (Obs, isize)>,
}

fn make(dict: usize, dir: &str) -> Bench {
    let mut vm = new_vm();
    reset(&mut vm);
    if dict == 5 {
        // the code of the words stands near the end
        let n = room(&mut vm) - 14000;
        vm.s_stack().push(n as isize);
        eval(&mut vm, "allot");
    }
    for d in USER.split('|') {
        eval(&mut vm, &d.replace("@/", &format!("{}/", dir)));
        assert!(err(&vm) == 0 && !vm.state().is_compiling, "{}: {}", d, err(&vm));
        if room(&mut vm) < 4096 {
            break;
        }
    }
    let more: Vec<String> = match dict {
        0 => vec![],
        1 => vec!["1 allot".into()],
        2 => vec!["5 allot".into()],
        3 => (0..300).map(|k| format!(": w{} ;", k)).collect(),
        4 => (0..950).map(|k| format!("create _{}", (0..2).map(|j| (b'G' + (k / [1, 20][j] % 20) as u8) as char).chain(std::iter::repeat('z').take(k / 400)).collect::<String>())).collect(),
        5 => vec!["unused-room".into()],
        6 => (0..30).flat_map(|k| vec![format!("marker m{}", k), format!(": w{} 1 ;", k), format!("m{}", k), format!(": v{} 1 if ;", k)]).collect(),
        8..=12 => vec![format!("{} allot", [2, 3, 4, 6, 7][dict - 8])],
        _ => (0..40).map(|k| format!("variable t{} immediate", k)).collect(),
    };
    for m in &more {
        if m == "unused-room" {
            let n = room(&mut vm) - 3000;
            vm.s_stack().push(n as isize);
            eval(&mut vm, "allot");
        } else {
            eval(&mut vm, m);
        }
        if err(&vm) != 0 {
            recover(&mut vm);
        }
        reset(&mut vm);
    }
    let h = vm.data_space().here();
    let s = vm.data_space().start();
    let m = mem(&mut vm)[..h - s].to_vec();
    Bench { words: vm.wordlist().len(), here: h, mem: m, vm, want: HashMap::new() }
}

fn clean(b: &mut Bench) -> bool {
    let vm = &mut b.vm;
    for t in 0..5 {
        vm.set_current_task(t);
        vm.files_mut().clear();
        vm.sources_mut().clear();
        vm.lines_mut().clear();
        vm.s_stack().reset();
        vm.f_stack().reset();
        vm.r_stack().reset();
        vm.state().source_id = 0;
        vm.state().instruction_pointer = 0;
    }
    reset(vm);
    if vm.find("undo").is_some() {
        eval(vm, "undo");
        reset(vm);
    }
    let s = vm.data_space().start();
    if vm.wordlist().len() != b.words || vm.data_space().here() != b.here {
        return false;
    }
    let (h, m) = (b.here, &b.mem);
    mem(vm)[16..h - s].copy_from_slice(&m[16..]);
    true
}

fn programs() -> Vec<(usize, bool, &'static str)> {
    let mut v = vec![];
    for w in WORDS {
        v.push((0, true, *w));
        v.push((1, true, *w));
        if !FLOATY.contains(w) {
            v.push((3, true, *w));
        } else if !["f.r", "h.r", "drop 1 fpick"].contains(w) {
            v.push((2, true, *w));
        }
    }
    for t in TEXTS {
        v.push((9, false, *t));
    }
    v
}

fn allowed(c: &Ctx, word: bool, p: &str) -> bool {
    let own_base = ["hex", "decimal", "base"].iter().any(|w| p.split_whitespace().any(|x| x == *w));
    let digits = p.bytes().any(|x| x.is_ascii_digit()) && !p.starts_with("2") && !p.starts_with("1") && !p.starts_with("0") || p.contains(' ') || p.starts_with("0x") || p.starts_with("'") || p.starts_with("$");
    let shows = [".", ".r", "u-ploop", "u-leave", "u-while", "u-nest", "u-goto", "u-j", "u-io", "u-xt", "u-src", "u-floops", "u-flit"].contains(&p);
    if c.base > 0 && (digits || shows || own_base || !word) {
        return false;
    }
    // definitions do not nest; a literal belongs to the text around it
    let defines = [
        ":", "create", "constant", "variable", "marker", "defer", "if", ";", "[", "]", "[']", "[char]", "does>", "recurse", "2constant", "fconstant", "2variable", "fvariable", "then", "do", "loop", "(", ".(", "\\", "compile-only",
        "immediate", "reset", "bl", ".memory", "include", "included", "compiling?", ">r", "0labels", "'", "s\"", "c\"", ".\"", "char", "parse", "words", "value", "abort",
    ];
    let harmless = ["char A char \u{4e2d}", "' dup .word", "' dup execute", "5 ' 1+ execute", "s\" abc\" type", "32 parse ab cd", "s\" \" type", "create t 1 , 2 , 3 , t @ t cell+ @"];
    if c.open > 0 && (p == "abort" || !word && !harmless.contains(&p) && p.split_whitespace().any(|x| defines.contains(&x))) {
        return false;
    }
    if c.task > 0 && (!word || p.contains("' ") || p == "nosuch") {
        return false;
    }
    // the dictionary is what these show
    if (p == "words" || p == ".memory") && (c.dict > 0 || c.times > 0 || c.before > 0) {
        return false;
    }
    true
}

/// Run a program in a context, as often as the context says; the first and the last of what it did.
fn run(b: &mut Bench, c: &Ctx, k: usize, word: bool, p: &str, dir: &str) -> Vec<(Obs, isize)> {
    let vm = &mut b.vm;
    let ba = vm.data_space().system_variables().base_addr();
    if c.before > 0 {
        for x in 0..4 {
            vm.s_stack().push(x);
        }
        eval(vm, BEFORE[c.before]);
        recover(vm);
        reset(vm);
    }
    let p = &p.replace("@/", &format!("{}/", dir));
    let mut line = p.to_string();
    if c.open > 0 {
        let (a, z) = [("", ""), ("if", "then"), ("if begin", "while repeat then"), ("case n1 of", "endof endcase"), ("if if if if if if if if if if", "then then then then then then then then then then"), (IFS, THENS)][c.open - 1];
        line = format!("marker undo : q1 {} [ {} ] {} ;", a, p, z);
    } else if !word {
        line = format!("marker undo {}", p);
    }
    if c.calls > 0 && c.task == 0 {
        line = format!("{} nest {}", ["n0", "n1", "n6", "n20"][c.calls], line);
    }
    match c.place {
        0 => {}
        1 => line = format!(" {}", line),
        2 => line = format!("{}{}", " ".repeat(62), line),
        3 => line = format!("{}{}", " ".repeat(255), line),
        4 => line = format!("{}{}", "\t".repeat(256), line),
        5 => line = format!("( \u{4e2d}\u{e9} ) {}", line),
        6 => line = format!("{}{}", "noop ".repeat(900), line),
        7 => line = format!("\t  {} ", line),
        _ => line = format!("{}{}", " ".repeat(66_000), line),
    }
    if c.file > 0 {
        let text = match c.file {
            1 => format!("{}\n", line),
            2 => line.clone(),
            3 => format!("\n{}\n\n", line),
            4 => format!("{}{}\n", "noop\n".repeat(300), line),
            5 => format!("noop\r\n{}\r\n", line),
            _ => format!("{}\nnoop", line),
        };
        std::fs::write(format!("{}/f0", dir), text).unwrap();
        let depth = match c.file {
            6 => 1,
            7 => 2,
            8 => 5,
            _ => 0,
        };
        for j in 1..=depth {
            std::fs::write(format!("{}/f{}", dir, j), format!("noop\ninclude {}/f{}\nnoop\n", dir, j - 1)).unwrap();
        }
        line = format!("include {}/f{}", dir, depth);
    }
    let mut t = 0;
    if c.task > 0 {
        eval(vm, &format!("marker undo : t {} ; : tn dup 0> if 1- recurse else drop t then ;", p));
        t = vm.find("tn").unwrap_or(0);
    }
    let mut v = vec![];
    for n in 0..TIMES[c.times] {
        vm.set_current_task(c.task);
        for x in 0..c.ncells() {
            vm.s_stack().push(1000 + x as isize);
        }
        for x in 0..c.nfloats() {
            vm.f_stack().push(1000.5 + x as f64);
        }
        if k < STACKS.len() {
            for x in STACKS[k].0 {
                vm.s_stack().push(*x);
            }
            for x in STACKS[k].1 {
                vm.f_stack().push(*x);
            }
        }
        unsafe { vm.data_space().put_isize(BASES[c.base], ba) };
        if c.task > 0 {
            vm.set_error(None);
            clear_out(vm);
            vm.s_stack().push(CALLS[c.calls] as isize);
            vm.state().instruction_pointer = 0;
            vm.execute_word(t);
            vm.run();
        } else {
            vm.set_error(None);
            clear_out(vm);
            eval(vm, &line);
        }
        let mut o = obs(vm);
        let (from, to) = (vm.data_space().start(), vm.data_space().limit());
        // the machines have their memory at different places
        o.s.iter_mut().filter(|x| (from..to).contains(&(**x as usize))).for_each(|x| *x += (1 << 60) - from as isize);
        let base = unsafe { vm.data_space().get_isize(ba) };
        let e = o.err;
        if n == 0 || n + 1 == TIMES[c.times] {
            v.push((o, base));
        }
        recover(vm);
        for x in 0..5 {
            vm.set_current_task(x);
            vm.s_stack().reset();
            vm.f_stack().reset();
            vm.r_stack().reset();
        }
        let ip = e != 0;
        reset(vm);
        if ip {
            vm.state().instruction_pointer = 0;
            while !vm.sources().is_empty() {
                vm.sources_mut().pop();
                vm.lines_mut().pop();
            }
        }
        if c.task == 0 && n + 1 < TIMES[c.times] && vm.find("undo").is_some() {
            eval(vm, "undo");
            reset(vm);
        }
        // each time with the same memory
        let s = vm.data_space().start();
        let (h, m) = (b.here, &b.mem);
        mem(vm)[16..h - s].copy_from_slice(&m[16..]);
    }
    v
}

/// The files that the texts name.
fn sources(wk: &mut Wk, dir: &str) {
    if !wk.store.contains_key(&99) {
        wk.store.insert(99, Box::new(0u8));
        for (n, t) in [("g0", ": g 5 ; g\nvariable gv 6 gv !\n\ncomment\r\n: m 3 0 do i\nloop ;\nm ( a ) gv @\n"), ("g1", "1\n2 nosuch\n3\n"), ("g2", ": g if\n")] {
            std::fs::write(format!("{}/{}", dir, n), t.replace("comment", "\\ 7")).unwrap();
        }
    }
}

fn case(wk: &mut Wk, ctxs: &[Ctx], progs: &[(usize, bool, &'static str)], i: u64) -> CaseResult {
    // contexts vary slowest by dictionary, so that a worker keeps its machines
    let c = ctxs[(i / progs.len() as u64) as usize];
    let pi = (i % progs.len() as u64) as usize;
    let (k, word, p) = progs[pi];
    if !allowed(&c, word, p) {
        return Ok(());
    }
    let dir = wk.scratch.clone();
    let slot = 100 + c.dict as u64;
    let mut b: Box<Bench> = match wk.store.remove(&slot) {
        Some(b) => b.downcast().unwrap(),
        None => Box::new(make(c.dict, &dir)),
    };
    if !clean(&mut b) {
        b = Box::new(make(c.dict, &dir));
        clean(&mut b);
    }
    sources(wk, &dir);
    let key = format!("{:?} on {:?} in {:?}", p, STACKS.get(k), c);
    wk.note(&key);
    if !b.want.contains_key(&pi) {
        let base = Ctx { dict: c.dict, ..Ctx::default() };
        let w = run(&mut b, &base, k, word, p, &dir)[0].clone();
        // what it does in other dictionaries is what it does in the plain one
        if c.dict > 0 {
            let mut plain: Box<Bench> = match wk.store.remove(&100) {
                Some(b) => b.downcast().unwrap(),
                None => Box::new(make(0, &dir)),
            };
            if !clean(&mut plain) {
                plain = Box::new(make(0, &dir));
                clean(&mut plain);
            }
            let q = run(&mut plain, &Ctx::default(), k, word, p, &dir)[0].clone();
            wk.store.insert(100, plain);
            // where its data stand is the one thing that may differ
            let far = |o: &Obs| c.dict == 5 && o.s.iter().any(|x| *x >= 1 << 59);
            if !same(&w, &q, &base) && !far(&w.0) && p != "words" && p != ".memory" {
                return fail(key, format!("in dictionary {} it gives {:?}, in a plain one {:?}", c.dict, w, q));
            }
        }
        b.want.insert(pi, w);
        if !clean(&mut b) {
            let want = b.want;
            *b = make(c.dict, &dir);
            b.want = want;
            clean(&mut b);
        }
    }
    let want = b.want[&pi].clone();
    if want.0.err == -4 || want.0.err == -45 {
        return fail(key, "underflow"); // a mistake of this table
    }
    if want.0.err != 0 && word && (p.starts_with("u-") || p.starts_with("v-")) {
        return fail(key, format!("error {} from a word of the table", want.0.err));
    }
    if want.0.err == -13 && c.task > 0 {
        wk.store.insert(slot, b);
        return Ok(());
    }
    let got = run(&mut b, &c, k, word, p, &dir);
    wk.trans(TIMES[c.times] as u64);
    wk.trace();
    wk.state(H::new().u(i));
    for g in &got {
        if !same(&want, g, &c) {
            return fail(key, format!("on its own it gives {:?}, here {:?}", want, g));
        }
    }
    wk.store.insert(slot, b);
    Ok(())
}

/// Words that read the next word of their line.
const READS: &[&str] = &[
    ":", "create", "constant", "variable", "marker", "defer", "2constant", "fconstant", "2variable", "fvariable", "'", "[']", "char", "[char]", "postpone", "+field", "include", "parse-word", "k", "mk", "-work",
];

/// The parts of a text that a line may end behind, and the places between a word and the one it reads.
fn parts(t: &str) -> Option<(Vec<usize>, Vec<usize>)> {
    let b = t.as_bytes();
    let (mut ends, mut inner, mut p) = (vec![], vec![], 0);
    let token = |mut p: usize| {
        while p < b.len() && b[p] == b' ' {
            p += 1;
        }
        let from = p;
        while p < b.len() && b[p] != b' ' {
            p += 1;
        }
        (from, p)
    };
    loop {
        let (from, to) = token(p);
        if from == to {
            break;
        }
        let w = &t[from..to];
        p = to;
        if ["\\", "word", "parse", "_skip", ".(", "evaluate", "source"].contains(&w) {
            return None;
        }
        if READS.contains(&w) {
            inner.push(to);
            p = token(to).1;
        } else if w.ends_with('"') && w.len() < 4 || w == "(" {
            let q = if w == "(" { b')' } else { b'"' };
            p = b.iter().skip(to + 1).position(|c| *c == q).map_or(b.len(), |n| to + 2 + n);
        }
        ends.push(p);
    }
    ends.pop();
    Some((ends, inner))
}

/// One text in several lines: typed, read by the Forth-coded interpreter, or in a file.
fn in_lines(wk: &mut Wk, texts: &[&'static str], i: u64) -> CaseResult {
    let t = texts[(i / 4) as usize];
    let how = i % 4;
    let Some((ends, inner)) = parts(t) else { return Ok(()) };
    let dir = wk.scratch.clone();
    let mut b: Box<Bench> = match wk.store.remove(&100) {
        Some(b) => b.downcast().unwrap(),
        None => Box::new(make(0, &dir)),
    };
    sources(wk, &dir);
    let mut play = |wk: &mut Wk, lines: &[&str], how: u64| -> Obs {
        if !clean(&mut b) {
            b = Box::new(make(0, &dir));
            clean(&mut b);
        }
        let vm = &mut b.vm;
        let base = vm.data_space().system_variables().base_addr();
        unsafe { vm.data_space().put_isize(10, base) };
        eval(vm, "marker undo");
        clear_out(vm);
        let lines: Vec<String> = lines.iter().map(|l| l.replace("@/", &format!("{}/", dir))).collect();
        wk.trans(lines.len() as u64);
        if how < 2 {
            for l in &lines {
                let go = if how == 1 && !vm.state().is_compiling { "go " } else { "" };
                eval(vm, &format!("{}{}", go, l));
                if err(vm) != 0 {
                    break;
                }
            }
        } else {
            let e = if how == 2 { "\n" } else { "\r\n" };
            std::fs::write(format!("{}/f0", dir), lines.join(e) + e).unwrap();
            eval(vm, &format!("include {}/f0", dir));
        }
        let mut o = obs(vm);
        let (from, to) = (vm.data_space().start(), vm.data_space().limit());
        o.s.iter_mut().filter(|x| (from..to).contains(&(**x as usize))).for_each(|x| *x += (1 << 60) - from as isize);
        recover(vm);
        if o.err != 0 {
            // what is left of the stacks is not the text's
            o = Obs { err: o.err, out: o.out, ..Obs::default() };
        }
        if how >= 2 {
            o.out.clear();
        }
        o
    };
    let cut = |at: &[usize]| -> Vec<&str> {
        let mut v = vec![];
        let mut from = 0;
        for a in at {
            v.push(&t[from..*a]);
            from = *a;
        }
        v.push(&t[from..]);
        v
    };
    let mut want = play(wk, &[t], 0);
    let show = want.clone();
    if how >= 2 {
        want.out.clear();
    }
    let n = ends.len();
    let mut sets: Vec<Vec<usize>> = vec![vec![], ends.clone()];
    if n <= 10 {
        sets.extend((1..1u32 << n).map(|m| (0..n).filter(|k| m >> k & 1 == 1).map(|k| ends[k]).collect()));
    } else {
        sets.extend(ends.iter().map(|e| vec![*e]));
        sets.extend(ends.iter().enumerate().flat_map(|(k, x)| ends[k + 1..].iter().map(move |y| vec![*x, *y])));
    }
    for at in &sets {
        let l = cut(at);
        let key = format!("{:?} in {}", l, ["lines", "lines read by evaluate-input", "a file", "a file with carriage returns"][how as usize]);
        wk.note(&key);
        let got = play(wk, &l, how);
        wk.trace();
        if got != want {
            return fail(key, format!("in one line it gives {:?}, here {:?}", show, got));
        }
    }
    // a word that lacks the one it reads fails at the end of its line
    for at in inner {
        let mut want = play(wk, &[&t[..at]], 0);
        if want.err == 0 {
            continue;
        }
        if how >= 2 {
            want.out.clear();
        }
        let l = cut(&[at]);
        let key = format!("{:?}, way {}", l, how);
        wk.note(&key);
        let got = play(wk, &l, how);
        if got != want {
            return fail(key, format!("the first line alone gives {:?}, here {:?}", want, got));
        }
    }
    wk.state(H::new().u(i));
    wk.store.insert(100, b);
    Ok(())
}

fn same(want: &(Obs, isize), got: &(Obs, isize), c: &Ctx) -> bool {
    let (w, g) = (&want.0, &got.0);
    let base = if want.1 != 10 { want.1 } else { BASES[c.base] };
    // loading flushes the output after each line
    if w.err != g.err || (c.file == 0 && w.out != g.out) {
        return false;
    }
    if w.err != 0 {
        return true;
    }
    let own = |p: &(Obs, isize)| p.1;
    let (nc, nf) = (c.ncells(), c.nfloats());
    g.s.len() == w.s.len() + nc
        && g.f.len() == w.f.len() + nf
        && g.s[nc..] == w.s[..]
        && g.f[nf..] == w.f[..]
        && g.s[..nc].iter().enumerate().all(|(k, x)| *x == 1000 + k as isize)
        && g.f[..nf].iter().enumerate().all(|(k, x)| *x == (1000.5 + k as f64).to_bits())
        && g.compiling == w.compiling
        && g.c == w.c
        && g.r == w.r
        && (own(got) == base || own(got) == want.1)
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![];
    let mut v = vec![];
    for cells in 0..(if t { 50 } else { 24 }) {
        for floats in 0..(if t { 50 } else { 12 }) {
            v.push(Ctx { cells: cells + 100, floats: floats + 100, ..Ctx::default() });
        }
    }
    let p = programs();
    scopes.push(Scope::new(&format!("{} texts above all of {} depths of cells and floats", p.len(), v.len()), v.len() as u64 * p.len() as u64, 256, move |wk, i| case(wk, &v, &p, i)));
    let v: Vec<&'static str> = TEXTS.iter().copied().chain(USER.split('|').map(|d| d.trim())).chain(WORDS.iter().copied().filter(|w| w.contains(' '))).collect();
    scopes.push(Scope::new(&format!("{} texts in 4 ways, divided into lines wherever they can be", v.len()), 4 * v.len() as u64, 1, move |wk, i| in_lines(wk, &v, i)));
    for n in 0..=(if t { 3 } else { 2 }) {
        let mut v = contexts(n);
        if n == 3 {
            v.retain(|c| c.times < 3 && c.place < 8 && c.dict < 7 && c.before < 6 && c.cells < 6 && c.floats < 4 && c.base < 4);
        }
        v.sort_by_key(|c| (c.dict, c.times));
        let p = programs();
        let total = v.len() as u64 * p.len() as u64;
        scopes.push(Scope::new(&format!("{} texts in all {} contexts that differ in {} ways", p.len(), v.len(), n), total, if n < 2 { 32 } else { 1024 }, move |wk, i| case(wk, &v, &p, i)));
    }
    Property {
        id: "C31",
        assumptions: vec![
            "each context differs from the plain one (empty stacks below, task 0, core dictionary, first line from the terminal, base 10, no definition open, no error before, run once) in at most the stated number of ways; the plain run itself is not judged here, other properties do that".to_string(),
            "texts that look at the depth, the dictionary, the base or the input are only put in contexts they do not see; output in files is not compared, because loading flushes it after each line".to_string(),
        ],
        scopes,
    }
}
