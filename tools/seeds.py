# Planted bugs, written from the properties' text and the code (see mkseed.py).

seed('empty-else', 'C05', [('src/core.rs', '''            let here = self.data_space().here();
            unsafe {
                self.data_space()
                    .put_isize(here as isize, branch_part - mem::size_of::<isize>());
            }
        }
    }

    /// ```text
    /// n1 CASE''', '''            let mut here = self.data_space().here();
            // An ELSE part without code needs no branch around it.
            if here == branch_part
                && unsafe { self.data_space().get_usize(here - 2 * mem::size_of::<isize>()) }
                    == self.references().idx_branch
            {
                here -= 2 * mem::size_of::<isize>();
                self.data_space().truncate(here);
                return;
            }
            unsafe {
                self.data_space()
                    .put_isize(here as isize, branch_part - mem::size_of::<isize>());
            }
        }
    }

    /// ```text
    /// n1 CASE''')], '''
    ev(vm, ": t if 1 else then 2 3 4 ;");
    assert_eq!(err(vm), 0);
    ev(vm, "0 t");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [2, 3, 4]);
''', 'an else part without any word, and a false condition', 'The branch of a false condition jumps two cells past the end of the if, so the words behind it are skipped or cells executed as words.')

seed('plus-loop-zero', 'C07', [('src/core.rs', '''        match rt.checked_add(t) {
            Some(sum) => {
                self.r_stack().push(sum);
                self.branch();
            }
            None => {''', '''        let sum = rt.wrapping_add(t);
        let crossed = if t > 0 { sum < rt } else { sum >= rt };
        match Some(sum).filter(|_| !crossed) {
            Some(sum) => {
                self.r_stack().push(sum);
                self.branch();
            }
            None => {''')], '''
    ev(vm, ": t 10 3 do i dup 5 = if leave then depth 2 < if 0 else 1 then +loop ;");
    ev(vm, "t");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [3, 3, 4, 5]);
''', 'a step of zero in +loop', 'A step of zero ends the loop although the index has not crossed the boundary.')

seed('label-word', 'C08', [('src/core.rs', '''        } else if self.forward_bitset().layer3() != 0 {''',
 '''        } else if self.forward_bitset().get_from_layer(0, 0) != 0 {''')], '''
    ev(vm, ": t [ 64 ] goto 1 ;");
    assert!(err(vm) != 0, "a goto to a missing label was accepted");
''', 'an unresolved goto to a label above 63', 'A definition with an unresolved goto to a high label is accepted; running it jumps to address 0.')

seed('hash-only', 'C09', [('src/core.rs', '''                        if w_name.eq_ignore_ascii_case(name) {''',
 '''                        if w_name.as_bytes().first() == name.as_bytes().first() {''')], '''
    ev(vm, ": xb: 1 ; : xa[ 2 ; xb: xa[ XB:");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [1, 2, 1]);
    ev(vm, "xc9");
    assert_eq!(err(vm), -13);
''', 'two names with the same hash and first letter', 'A name finds another word whose name has the same hash and first letter.')

seed('overflow-excursion', 'C03', [('src/core.rs', '''        (self.inner[64] != self.canary) || (self.len > 64 && self.len <= 128)''',
 '''        self.len > 64 && self.len <= 128''')], '''
    let mut s = String::from(": t ");
    for i in 0..70 { s.push_str("1 "); }
    for i in 0..70 { s.push_str("drop "); }
    s.push_str(";");
    for part in s.split(" drop").collect::<Vec<_>>().join(" drop").split_inclusive(' ').collect::<Vec<_>>() { }
    ev(vm, &s);
    assert_eq!(err(vm), 0);
    ev(vm, "t");
    assert_eq!(err(vm), -3);
''', 'a word that overflows the stack and comes back below its capacity before it returns', 'The overflow within a word is not reported.')


seed('marker-bucket', 'C10', [('src/core.rs', '''        for i in 0..BUCKET_SIZE {
            dfa += mem::size_of::<usize>();
            let x = unsafe { self.data_space().get_usize(dfa) };
            self.wordlist_mut().buckets[i] = x;
        }''', '''        for i in 0..BUCKET_SIZE {
            dfa += mem::size_of::<usize>();
            let x = unsafe { self.data_space().get_usize(dfa) };
            // A bucket whose newest word is older than the marker need not change.
            if self.wordlist().buckets[i] > wp {
                self.wordlist_mut().buckets[i] = x;
            }
        }''')], '''
    ev(vm, ": a 1 ; marker m");
    ev(vm, "m");
    assert_eq!(err(vm), 0);

    ev(vm, "m");
    assert_eq!(err(vm), -13, "the marker itself must be forgotten");
''', 'a marker executed while it is the newest word of its bucket', 'The marker stays in its bucket, so its name finds whatever word is defined next.')


seed('pick-far', 'C01', [('src/core.rs', '''        let t = self.s_stack()[slen.wrapping_sub(1)] as u8;
        let x = self.s_stack()[slen.wrapping_sub(t.wrapping_add(2))];''',
 '''        let t = self.s_stack()[slen.wrapping_sub(1)] as u8 & 0x1f;
        let x = self.s_stack()[slen.wrapping_sub(t.wrapping_add(2))];''')], '''
    for i in 0..50 { vm.s_stack().push(i); }
    ev(vm, "40 pick");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm)[50], 9);
''', 'pick with an index above 31', 'pick returns the cell 32 places higher.')

seed('min-over-minus-one', 'C02', [('src/core.rs', '''            self.s_stack()[slen.wrapping_sub(2)] = n.wrapping_rem(t);
            self.s_stack()[slen.wrapping_sub(1)] = n.wrapping_div(t);''',
 '''            let q = n.saturating_div(t);
            self.s_stack()[slen.wrapping_sub(1)] = q;
            self.s_stack()[slen.wrapping_sub(2)] = n.wrapping_sub(q.wrapping_mul(t));''')], '''
    ev(vm, "max-n 1+ -1 /mod");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [0, isize::MIN]);
''', 'the smallest integer /mod -1', 'The quotient saturates and the remainder is -1.')

seed('c-fetch-limit', 'C04', [('src/core.rs', '''        if self.data_space().start() <= t && t < self.data_space().limit() {
            let value = unsafe { self.data_space().get_u8(t as usize) as isize };''',
 '''        if self.data_space().start() <= t && t <= self.data_space().limit() {
            let value = unsafe { self.data_space().get_u8(t as usize) as isize };''')], '''
    let l = vm.data_space().limit();
    ev(vm, &format!("{} c@", l - 1));
    assert_eq!(err(vm), 0);
    ev(vm, &format!("{} c@", l));
    assert_eq!(err(vm), -9);
''', 'c@ at the address right behind the data space', 'c@ reads one byte of foreign memory.')

seed('stale-do', 'C06', [('src/core.rs', '''        let position = self.c_stack().as_slice().iter().rposition(|&c| match c {''',
 '''        let position = self.c_stack().inner.iter().rposition(|&c| match c {''')], '''
    ev(vm, ": t 2 0 do loop leave ;");
    assert_eq!(err(vm), -22);
    recover(vm);
    ev(vm, ": u leave ;");
    assert_eq!(err(vm), -22);
''', 'leave behind a loop that was closed in the same definition', 'leave outside of a loop is accepted if a loop stood before it.')

seed('wide-delimiter', 'C12', [('src/core.rs', '''                                Some((idx, _)) => {
                                    cnt = idx;
                                }
                                None => {}''', '''                                Some(_) => {
                                    cnt = idx + 1;
                                }
                                None => {}''')], '''
    ev(vm, "char \\u{e9} parse abc\\u{e9}7 8");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [7, 8]);
''', 'a delimiter of more than one byte', 'The text behind the delimiter is lost.')

seed('reactivate', 'C17', [('src/core.rs', '''            // Wake task `i`.
            self.set_awake(i, true);
            // Reset''', '''            // Wake task `i`.
            let fresh = !self.awake(i);
            self.set_awake(i, true);
            // Reset'''), ('src/core.rs', '''            self.set_current_task(i);
            self.reset();
            self.state().instruction_pointer = ip;''', '''            self.set_current_task(i);
            if fresh {
                self.reset();
            }
            self.state().instruction_pointer = ip;''')], '''
    ev(vm, "variable n : w 3 activate 1 >r 2 >r 3 >r 4 >r 5 >r 6 >r ?stacks 1 n +! begin pause again ;");
    ev(vm, ": go 20 0 do w pause loop ; go");
    assert_eq!(err(vm), 0);
    ev(vm, "n @");
    assert_eq!(st(vm), [20]);
''', 'a task that is activated again, several times, while it is awake and has cells on its return stack', 'The cells of its former lives stay on its return stack until it overflows.')

seed('shared-fstack', 'C18', [('src/mock_vm.rs', '''        &mut self.tasks[self.current_task].f_stk''', '''        &mut self.tasks[self.current_task & 3].f_stk''')], '''
    ev(vm, ": bg 5 activate 1e 2e pause fdrop fdrop nod ; : t 7e bg pause f. ; t");
    assert_eq!(err(vm), 0);
    assert_eq!(out(vm).trim(), "7.0000000");
''', 'a computation with floats in the fifth task', 'The fifth task shares its floating-point stack with the operator.')

seed('size-seeks', 'C21', [('src/file_access.rs', '''            let ud = match &self.files()[fileid] {
                &Some(ref f) => match f.metadata() {
                    Ok(m) => {
                        let ud = m.len();''', '''            let ud = match &mut self.files_mut()[fileid] {
                &mut Some(ref mut f) => match f.seek(SeekFrom::End(0)) {
                    Ok(ud) => {'''), ('src/file_access.rs', '''                    Err(_) => Err(FILE_IO_EXCEPTION),
                },
                &None => Err(INVALID_NUMERIC_ARGUMENT),
            };
            match ud {
                Ok(ud) => {
                    self.s_stack().push3(ud as isize, 0, 0);
                }
                Err(e) => {''', '''                    Err(_) => Err(FILE_IO_EXCEPTION),
                },
                &mut None => Err(INVALID_NUMERIC_ARGUMENT),
            };
            match ud {
                Ok(ud) => {
                    self.s_stack().push3(ud as isize, 0, 0);
                }
                Err(e) => {''')], '''
    std::fs::write("f.txt", "hello").unwrap();
    ev(vm, ": nm s\\" f.txt\\" ; nm 0 open-file drop constant h  h file-size drop drop drop  h file-position drop drop");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [0]);
''', 'a read or write after file-size', 'file-size moves the file position to the end.')

seed('line-end-cr', 'C22', [('src/loader.rs', '''                    line.truncate(len - 1);
                    if line.ends_with('\\r') {
                        line.truncate(len - 2);
                        Ok((len - 2, not_eof))
                    } else {
                        Ok((len - 1, not_eof))
                    }''', '''                    let n = line.trim_end_matches(|c| c == '\\r' || c == '\\n').len();
                    line.truncate(n);
                    Ok((n, not_eof))''')], '''
    std::fs::write("f.txt", "ab\\r\\r\\nc\\n").unwrap();
    ev(vm, ": nm s\\" f.txt\\" ; nm 2dup 0 open-file drop open-source constant s  s load-line");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [3, -1]);
''', 'a line that ends in more than one carriage return', 'load-line removes characters that belong to the line.')

seed('fround-half', 'C23', [('src/float.rs', '''        self.f_stack().push(t.round());''',
 '''        self.f_stack().push(if t < 0.0 { (t - 0.5).ceil() } else { (t + 0.5).floor() });''')], '''
    vm.f_stack().push(0.49999999999999994);
    ev(vm, "fround");
    assert_eq!(vm.f_stack().pop(), 0.0);
    vm.f_stack().push(4503599627370497.0);
    ev(vm, "fround");
    assert_eq!(vm.f_stack().pop(), 4503599627370497.0);
''', 'the largest value below one half, or odd integers above 2^52', 'fround returns a wrong integer.')

seed('clear-fstack', 'C16', [('src/core.rs', '''    fn clear_stacks(&mut self) {
        self.s_stack().reset();
        self.f_stack().reset();
        self.c_stack().reset();
    }''', '''    fn clear_stacks(&mut self) {
        self.s_stack().reset();
        self.f_stack().len = 0;
        self.c_stack().reset();
    }''')], '''
    let s = "1e ".repeat(70);
    ev(vm, &format!(": t {} ; t", s));
    assert_eq!(err(vm), -44);
    recover(vm);
    ev(vm, "1 2 +");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [3]);
''', 'an overflow or underflow of the floating-point stack, then recovery', 'Every later line reports the overflow again.')

seed('base-digit', 'C13', [('src/parser.rs', '''        if d >= base {
            return IResult::Err(RESULT_OUT_OF_RANGE);
        }''', '''        if d >= base && (base < 16 || d > base) && (len == 0 || d != base) {
            return IResult::Err(RESULT_OUT_OF_RANGE);
        }''')], '''
    ev(vm, "%12");
    assert_eq!(err(vm), -13);
''', 'a digit equal to the base behind another digit', 'A token with an invalid digit is taken for a number.')

seed('task5-me', 'C19', [('src/core.rs', "        let me = self.current_task() + 1;", "        let me = (self.current_task() & 3) + 1;")], '''
    ev(vm, "variable f variable owner");
    ev(vm, ": bg 5 activate f get 1 owner ! pause pause f release 0 owner ! nod ; : t bg pause f release f get owner @ ; t");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [0], "two owners");
''', 'the operator and the fifth task using the same facility', 'The fifth task has the id of the operator, so the operator releases a facility that the fifth task owns.')

seed('utime-wraps', 'C20', [('src/facility.rs', "        let now = self.system_time_ns() / 1_000;", "        let now = (self.system_time_ns() / 1_000) as u32;")], '''
    for _ in 0..5_000_000 { vm.advance(); }
    ev(vm, "mtime utime");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [5_000_000, 5_000_000_000]);
''', 'more than 71 minutes of running time', 'The microsecond clock wraps around while the millisecond clock goes on.')

seed('width-byte', 'C15', [('src/output.rs', """        let (n1, n2) = self.s_stack().pop2();
        if let Some(mut buf) = self.output_buffer().take() {
            self.hold_buffer().clear();
            match base {
                2 => {""", """        let n2 = self.s_stack().pop() as i8 as isize;
        let n1 = self.s_stack().pop();
        if let Some(mut buf) = self.output_buffer().take() {
            self.hold_buffer().clear();
            match base {
                2 => {""")], '''
    ev(vm, "7 130 .r");
    assert_eq!(err(vm), 0);
    assert_eq!(out(vm).len(), 130);
''', 'a field wider than 127 characters', '.r does not fill wide fields.')

seed('name-31', 'C09', [('src/core.rs', "        for c in name.bytes() {\n            hash = hash", "        for c in name.bytes().take(31) {\n            hash = hash"),
 ('src/core.rs', "                        if w_name.eq_ignore_ascii_case(name) {", "                        let n = w_name.len().min(31);\n                        if w_name.len() >= 31 && name.len() >= 31 && name.as_bytes()[..n].eq_ignore_ascii_case(&w_name.as_bytes()[..n]) || w_name.eq_ignore_ascii_case(name) {")], '''
    ev(vm, ": a2345678901234567890123456789012x 1 ; : a2345678901234567890123456789012y 2 ; a2345678901234567890123456789012x");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [1]);
''', 'two names that agree in their first 31 characters', 'The older of two long names finds the newer word.')

seed('has-room', 'C24', [('src/core.rs', "        if self.data_space().start() <= pos && pos <= self.limit() {", "")] if False else
 [('src/memory.rs', "        if self.start() <= pos && pos <= self.limit() {", "        if self.start() <= pos && pos < self.limit() {")], '''
    let left = vm.data_space().limit() - vm.data_space().here();
    ev(vm, &format!("{} allot", left));
    assert_eq!(err(vm), 0);
    assert_eq!(vm.data_space().here(), vm.data_space().limit());
''', 'an allocation that takes the very last byte', 'The last byte of the data space cannot be allocated.')

seed('move-words', 'C25', [('src/core.rs', """                    } else {
                        for p in (addr1..(addr1 + u)).into_iter().zip(addr2..(addr2 + u)) {
                            let value = self.data_space().get_u8(p.0);
                            self.data_space().put_u8(value, p.1);
                        }""", """                    } else if addr1 - addr2 >= mem::size_of::<usize>() {
                        // The odd bytes, then whole cells.
                        let cell = mem::size_of::<usize>();
                        let whole = u / cell * cell;
                        for i in whole..u {
                            let value = self.data_space().get_u8(addr1 + i);
                            self.data_space().put_u8(value, addr2 + i);
                        }
                        for i in 0..whole / cell {
                            let value = self.data_space().get_usize(addr1 + i * cell);
                            self.data_space().put_usize(value, addr2 + i * cell);
                        }
                    } else {
                        for i in 0..u {
                            let value = self.data_space().get_u8(addr1 + i);
                            self.data_space().put_u8(value, addr2 + i);
                        }""")], '''
    ev(vm, "create b 64 allot  : init 64 0 do i b i + c! loop ; init  b 9 + b 19 move");
    assert_eq!(err(vm), 0);
    ev(vm, ": t 19 0 do b i + c@ i 9 + = not if i then loop ; t");
    assert_eq!(st(vm), []);
''', 'a move to a lower address whose odd last bytes lie in the source range that is still to be copied', 'move overwrites source bytes before they are copied.')

seed('stale-culprit', 'C26', [('src/core.rs', "        self.state().aborted_word_pointer = self.state().word_pointer;", "        if self.state().aborted_word_pointer == 0 {\n            self.state().aborted_word_pointer = self.state().word_pointer;\n        }")], '''
    ev(vm, ": noop-handler ;");
    ev(vm, "1 0 /");
    vm.set_error(None);
    ev(vm, "0 @");
    ev(vm, ".backtrace");
    vm.set_error(None);
    ev(vm, ".backtrace");
    let o = out(vm);
    assert!(o.contains('@') && !o.contains('/'), "{}", o);
''', 'a second error after one that was only cleared by 0error', '.backtrace shows the word that failed first.')

seed('tail-call', 'C26', [('src/core.rs', """        let rlen = self.r_stack().len.wrapping_add(1);
        self.r_stack().len = rlen;
        self.r_stack()[rlen.wrapping_sub(1)] = self.state().instruction_pointer as isize;
        let wp""", """        let ip = self.state().instruction_pointer;
        let exit = self.references().idx_exit;
        // A call in front of EXIT needs no way back.
        if !(self.data_space().has(ip) && unsafe { self.data_space().get_usize(ip) } == exit) {
            let rlen = self.r_stack().len.wrapping_add(1);
            self.r_stack().len = rlen;
            self.r_stack()[rlen.wrapping_sub(1)] = ip as isize;
        }
        let wp""")], '''
    ev(vm, ": inner 0 @ ; : outer 1 drop inner ;");
    ev(vm, "' bye handler!");
    ev(vm, ": h .backtrace ; ' h handler! outer");
    let o = out(vm);
    let a = o.find("outer");
    let b = o.find("inner");
    assert!(a.is_some() && b.is_some() && a < b, "{}", o);
''', 'an error in a word called at the very end of a definition', 'The backtrace lacks words that were under way, and endless tail recursion is not noticed.')

seed('until-false', 'C05', [('src/core.rs', """            self.compile_zero_branch(begin_part);
        }
    }

    /// Terminate a `begin ... again` structure.""", """            // A constant false condition is a plain branch.
            let here = self.data_space().here();
            let lit = here - 2 * mem::size_of::<isize>();
            if lit >= begin_part && unsafe {
                self.data_space().get_usize(lit) == self.references().idx_lit
                    && self.data_space().get_isize(lit + mem::size_of::<isize>()) == 0
            } {
                self.data_space().truncate(lit);
                self.compile_branch(begin_part);
            } else {
                self.compile_zero_branch(begin_part);
            }
        }
    }

    /// Terminate a `begin ... again` structure.""")], '''
    ev(vm, ": t begin 1+ dup 5 = if -1 else 0 then until ;");
    assert_eq!(err(vm), 0);
    vm.set_source("0 t");
    vm.parse_word(); vm.interpret_token();
    vm.parse_word(); vm.interpret_token();
    let mut n = 0;
    while vm.forth() { n += 1; assert!(n < 1000, "endless"); }
    assert_eq!(st(vm), [5]);
''', 'a literal false at the end of an else part in front of until', 'The flag of the then part is branched over, so the loop does not end.')

seed('qdo-backwards', 'C07', [('src/core.rs', """        let (n, t) = self.s_stack().pop2();
        if n == t {
            self.branch();""", """        let (n, t) = self.s_stack().pop2();
        if n == t || (n < t && n > 0) {
            self.branch();""")], '''
    ev(vm, ": t 3 8 ?do i -1 +loop ; t");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [8, 7, 6, 5, 4, 3]);
''', '?do counting down to a positive limit', 'A loop counting down with ?do is skipped.')

seed('char-bytes', 'C12', [('src/core.rs', "        match last_token.chars().nth(0) {", "        match last_token.bytes().nth(0) {")], '''
    ev(vm, "char \\u{3bb}x");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [0x3bb]);
''', 'a character beyond ASCII', 'char yields the first byte of the character.')

seed('operator-suspended', 'C17', [('src/core.rs', """            i = (i + 1) % NUM_TASKS;
            if self.awake(i) {""", """            i = (i + 1) % NUM_TASKS;
            if i == 0 || self.awake(i) {""")], '''
    ev(vm, "variable a variable b : b1 2 activate begin 1 a +! a @ 5 = if 1 resume then pause again ; : b2 3 activate begin 1 b +! pause again ;");
    ev(vm, ": t b1 b2 stop a @ b @ ; t");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [5, 5]);
''', 'the operator suspended while other tasks run', 'A suspended operator is run whenever the round comes to it.')

seed('create-keeps', 'C21', [('src/file_access.rs', "                options.read(true).write(true).truncate(true).create(true);", "                options.read(true).write(true).create(true);")], '''
    std::fs::write("f.txt", "old contents").unwrap();
    ev(vm, ": t s\\" f.txt\\" r/w create-file drop file-size ; t");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [0, 0, 0]);
''', 'creating an existing file with read-write access', 'The old contents stay in the file.')

seed('long-line', 'C22', [('src/loader.rs', "        line.clear();\n        let result = match source.reader.read_line(&mut line) {", "        line.clear();\n        line.shrink_to(0x400);\n        let result = match (&mut source.reader).take(0x400).read_line(&mut line) {"),
 ('src/loader.rs', "use std::io::BufReader;", "use std::io::BufReader;\nuse std::io::Read;")], '''
    let mut text = String::new();
    for i in 0..300 { text.push_str(&format!("{} drop ", 10000 + i)); }
    text.push_str("( and a comment ) 5\\n");
    std::fs::write("f.fth", text).unwrap();
    ev(vm, "variable n : t s\\" f.fth\\" included ; t load-line# @");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm)[0], 5);
    let mut l = String::new();
    std::fs::write("g.fth", format!("{} 7\\n8\\n", " ".repeat(2000))).unwrap();
    ev(vm, "2drop variable x : u s\\" g.fth\\" r/o open-file drop >r s\\" g.fth\\" r> open-source dup load-line ; u");
    assert_eq!(st(vm)[1], 2002);
''', 'a line of more than 1024 bytes', 'A long line is delivered in pieces.')

seed('fneg-zero', 'C23', [('src/float.rs', "        self.s_stack().push(if t < 0.0 { TRUE } else { FALSE });", "        self.s_stack().push(if t.is_sign_negative() { TRUE } else { FALSE });")], '''
    ev(vm, "0e fnegate f0<");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [0]);
''', 'the negative zero', 'f0< is true of the negative zero.')

seed('deep-underflow', 'C03', [('src/core.rs', "        (self.inner[255] != self.canary) || (self.len > 128)", "        (self.inner[255] != self.canary) || (self.len > 192)"),
 ('src/core.rs', "        (self.inner[64] != self.canary) || (self.len > 64 && self.len <= 128)", "        (self.inner[64] != self.canary) || (self.len > 64 && self.len <= 192)")], '''
    ev(vm, ": d8 2drop 2drop 2drop 2drop ; : t d8 d8 d8 d8 d8 d8 d8 d8 d8 d8 ; t");
    assert_eq!(err(vm), -4);
''', 'more than 64 cells popped below the bottom', 'A deep underflow is reported as an overflow.')

seed('abs-min', 'C02', [('src/core.rs', "        self.s_stack().push(t.wrapping_abs());", "        self.s_stack().push(t.abs());")], '''
    ev(vm, "$8000000000000000 abs");
    ev(vm, "drop 1 63 lshift abs");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [isize::MIN]);
''', 'the absolute value of the smallest integer', 'abs of the smallest integer crashes the host.')

seed('c-store-limit', 'C04', [('src/core.rs', "        if self.data_space().start() < t && t < self.data_space().limit() {\n            unsafe { self.data_space().put_u8(n as u8, t as usize) };", "        if self.data_space().start() < t && t <= self.data_space().limit() {\n            unsafe { self.data_space().put_u8(n as u8, t as usize) };")], '''
    let l = vm.data_space().limit();
    ev(vm, &format!("1 {} c!", l));
    assert_eq!(err(vm), -9);
''', 'c! to the address right behind the data space', 'A byte behind the data space is overwritten.')

seed('label-both', 'C08', [('src/core.rs', "                self.labels_mut()[n] = here;\n                self.forward_bitset_mut().remove(n as u32);", "                self.forward_bitset_mut().remove(n as u32);")], '''
    ev(vm, ": t [ 1 ] goto 5 [ 1 ] label 1+ dup 4 < if [ 1 ] goto then ;");
    assert_eq!(err(vm), 0);
    vm.set_source("0 t");
    vm.parse_word(); vm.interpret_token();
    vm.parse_word(); vm.interpret_token();
    let mut n = 0;
    while vm.forth() { n += 1; assert!(n < 1000, "endless"); }
    assert_eq!(st(vm), [4]);
''', 'a label that is the target of a goto before it and of one behind it', 'The goto behind the label jumps to the earlier goto.')


seed('fraction-long', 'C14', [('src/parser.rs', "        IResult::Done(&bytes[len as usize..], (value as f64) / (10.0f64).powi(len))", "        IResult::Done(&bytes[len as usize..], (value as f64) / (10.0f64).powi(len.min(15)))")], '''
    ev(vm, "1000000000000000000e 0.00000000000000001e f*");
    assert_eq!(err(vm), 0);
    let v = vm.f_stack().as_slice()[0];
    assert!((v - 10.0).abs() < 1e-9, "{}", v);
''', 'a fraction of more than 15 digits', 'The digits behind the fifteenth are taken for larger than they are.')

seed('hide-shadowed', 'C10', [('src/core.rs', """        if let Some(_) = self.find(&last_token) {
            match""", """        if let Some(old) = self.find(&last_token) {
            // The older word is found no more.
            if !last_token.is_empty() {
                self.wordlist_mut()[old].set_hidden(true);
            }
            match""")], '''
    ev(vm, ": a 1 ; marker m : a 2 ; m a");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [1]);
''', 'a word that was shadowed when the marker is executed', 'The older word does not become visible again.')

T = 'rtf/src/term.rs'
M = 'rtf/src/main.rs'
seed('blank-line', 'C28', [(T, "if self.buffer.len() == 0 {", "if self.buffer.trim().is_empty() {")], r"""
run('  ' + ENTER + 'b' + ENTER + EOF)
assert history() == ['  ', 'b'], history()
""", 'a line of blanks only', 'Such a line does not enter the history.', rtf=True)

seed('cursor-chars', 'C28', [(T, "let width = self.buffer[..x].width();", "let width = self.buffer[..x].chars().count();")], r"""
t = run('a\u4e2d\u4e2d' + ENTER + EOF)
assert '\x1b[1;6H' in t, repr(t)
""", 'a character that takes two columns, or none', 'The cursor is shown at the wrong column.', rtf=True)

seed('recall-overwrites', 'C28', [(T, "            h = self.history.len() - 1;\n            self.history[h].clear();", "            self.history[h].clear();")], r"""
run('one' + ENTER + 'two' + ENTER + UP + UP + 'x' + ENTER + EOF)
assert history() == ['one', 'two', 'onex'], history()
""", 'a line recalled from the history, changed or not, and entered', 'It replaces the old entry instead of becoming a new one.', rtf=True)

seed('down-draft', 'C28', [(T, """                                KeyCode::Down => {
                                    self.history[h].clear();
                                    self.history[h].push_str(&self.buffer);
                                    h += 1;""", """                                KeyCode::Down => {
                                    if h + 1 < self.history.len() {
                                        self.history[h].clear();
                                        self.history[h].push_str(&self.buffer);
                                    }
                                    h += 1;""")], r"""
t = run('ab' + DOWN + 'c' + ENTER + EOF)
assert 'abc' in t, repr(t)
""", 'Down at the newest line, with a draft in it', 'The draft is lost.', rtf=True)

seed('nested-line', 'C29', [(M, "            &mut self.lines_mut()[source_id as usize - 1]\n        } else {", "            // The line being read is the latest one.\n            self.lines_mut().last_mut().unwrap()\n        } else {")], r"""
open('a.fth', 'w').write('1 .\ninclude b.fth 2 .\n3 .\n')
open('b.fth', 'w').write('4 .\n')
t = answers('include a.fth' + ENTER + EOF)
assert t.split() == ['1', '4', '2', '3', 'ok'], repr(t)
""", 'a load inside a load, followed by more text', 'The outer file goes on with the line of the inner one.', rtf=True)

seed('subsec', 'C29', [(M, "elapsed.as_nanos() as _", "u64::from(elapsed.subsec_nanos())")], r"""
t = answers('1 ms : w mtime begin mtime over - dup 1100 < swap -1 > and while repeat mtime swap - . ; w' + ENTER + EOF)
assert int(t.split()[0]) >= 1100, t
""", 'a wait over the end of a second', 'The clock starts anew each second.', rtf=True)

seed('awake-last', 'C29', [(M, "        if i < NUM_TASKS {\n            self.tasks[i].awake = v;", "        if i + 1 < NUM_TASKS {\n            self.tasks[i].awake = v;")], r"""
t = answers('variable v : p pause ; : b 5 activate begin 7 v ! pause again ; b' + ENTER + 'p v @ .' + ENTER + EOF)
assert t.split()[-2:] == ['7', 'ok'], t
""", 'the fifth task', 'It can be neither resumed nor suspended.', rtf=True)

seed('bracket-structure', 'C06', [('src/core.rs', "                if self.wordlist()[found_index].is_compile_only() {", "                // Between [ and ] there is a definition for them.\n                if self.wordlist()[found_index].is_compile_only() && self.c_stack().len() == 0 {")], '''
    ev(vm, ": t 1 if [ then ] 5 ;");
    assert_eq!(err(vm), -14);
''', 'a compile-only word between [ and ] inside a control structure', 'It is executed instead of refused.')

seed('char-at-end', 'C30', [('src/core.rs', """            None => {
                self.set_last_token(last_token);
                self.abort_with(UNEXPECTED_END_OF_FILE);
            }
        }
    }

    /// Compilation: ( "&lt;spaces&gt;name" -- )""", """            None => {
                self.abort_with(UNEXPECTED_END_OF_FILE);
            }
        }
    }

    /// Compilation: ( "&lt;spaces&gt;name" -- )""")], '''
    ev(vm, "char");
    assert_eq!(err(vm), -39);
    ev(vm, "1 2");
    assert_eq!(err(vm), 0);
''', 'char as the last word of a line', 'The token buffer is lost and the next line brings the host down.')

seed('close-zero', 'C22', [('src/loader.rs', """            if id > 0
                && id - 1 < self.sources().len() as isize
                && self.sources()[id as usize - 1].is_some()
            {
                let _ =""", """            if id >= 0
                && id - 1 < self.sources().len() as isize
                && self.sources()[id as usize - 1].is_some()
            {
                let _ =""")], '''
    std::fs::write("f.fth", "1 drop\\n0 close-source\\n2 drop").unwrap();
    ev(vm, "include f.fth");
    assert_eq!(err(vm), -24);
''', 'closing source 0 while a file is being loaded', 'The host panics instead of reporting the error.')

seed('blank-run', 'C31', [('src/core.rs', """                                    if !last_token.is_empty() {
                                        cnt = idx;
                                        break;
                                    }
                                }
                                _ => last_token.push(ch),""", """                                    if !last_token.is_empty() || idx > 250 {
                                        cnt = idx;
                                        break;
                                    }
                                }
                                _ => last_token.push(ch),""")], '''
    ev(vm, &format!("{}5", " ".repeat(100)));
    assert_eq!(st(vm), [5]);
    ev(vm, &format!("{}6", " ".repeat(300)));
    assert_eq!(st(vm), [5, 6]);
''', 'a run of more than 250 blanks before a word', 'The rest of the line is not read.')

seed('task5-rstack', 'C18', [('src/mock_vm.rs', "        &mut self.tasks[self.current_task].r_stk", "        &mut self.tasks[self.current_task & 3].r_stk")], '''
    ev(vm, "variable x : t 5 activate 7 x ! begin 9 >r pause r> drop again ; : m pause pause 1 >r pause r> ; t m");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [1]);
''', 'a word of the first task that pauses while the fifth task runs', 'Both use one return stack.')

seed('short-chains', 'C09', [('src/core.rs', """        let mut w = self.wordlist().buckets[hash as usize % BUCKET_SIZE];
        while w != 0 {
            if""", """        let mut w = self.wordlist().buckets[hash as usize % BUCKET_SIZE];
        let mut tries = 0;
        while w != 0 && tries < 24 {
            tries += 1;
            if""")], '''
    ev(vm, ": keep 5 ;");
    for k in 0..1500 {
        ev(vm, &format!("create w{}", k));
        assert_eq!(err(vm), 0);
    }
    for k in 0..1500 {
        assert!(vm.find(&format!("w{}", k)).is_some(), "{}", k);
    }
    ev(vm, "keep");
    assert_eq!(st(vm), [5]);
''', 'more than a thousand words', 'The oldest words of a full chain are no longer found.')

seed('does-again', 'C11', [('src/core.rs', """        word.action = Core::xdoes;
        word.doer = doer;
    }""", """        word.action = Core::xdoes;
        if word.doer == 0 {
            word.doer = doer;
        }
    }""")], '''
    ev(vm, ": k create , does> @ ; : k2 k does> @ 1 + ; 5 k x 6 k2 y x y");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [5, 7]);
''', 'a defining word that calls another defining word and then runs does> itself', 'The first does> stays in force.')

seed('digits-20', 'C13', [('src/parser.rs', """        value = value.wrapping_mul(base).wrapping_add(d);
        len = len + 1;
""", """        value = value.wrapping_mul(base).wrapping_add(d);
        len = len + 1;
        if len > 20 {
            return IResult::Err(RESULT_OUT_OF_RANGE);
        }
""")], '''
    ev(vm, "%1111111111111111111111111");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [0x1ffffff]);
''', 'an integer of more than twenty digits', 'It is an undefined word.')

seed('f-proximate-order', 'C23', [('src/float.rs', "(x3.abs() * (x1.abs() + x2.abs()))", "(x3.abs() * (x1 + x2).abs())")], '''
    ev(vm, "-1.0e 3.0e -1.5e f~");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [-1]);
''', 'f~ with a negative tolerance on numbers of different signs', 'The tolerance is too small.')

seed('exponent-zeros', 'C14', [('src/core.rs', """                                exponent_part = value;
                                bytes = input;
                            }
                            parser::IResult::Err(e) => {
                                self.set_error(Some(e));
                                return;
                            }
                        }
                    } else {""", """                                exponent_part = if bytes.len() - input.len() > 6 { 9999 } else { value };
                                bytes = input;
                            }
                            parser::IResult::Err(e) => {
                                self.set_error(Some(e));
                                return;
                            }
                        }
                    } else {""")], '''
    ev(vm, "25E00000000001 f>s");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [250]);
''', 'an exponent written with more than six digits', 'It is taken for a huge one.')

seed('paren-page', 'C15', [('src/output.rs', "            buffer.extend(last_token.chars());", "            buffer.extend(last_token.chars().take(4096));")], '''
    ev(vm, &format!(".( {})", "a".repeat(5000)));
    assert_eq!(err(vm), 0);
    assert_eq!(out(vm).trim().len(), 5000);
''', 'a .( text of more than 4096 characters', 'Its end is not shown.')

seed('deep-backtrace', 'C26', [('src/tools.rs', "            for i in 0..self.r_stack().len() {\n                let ip", "            for i in self.r_stack().len().saturating_sub(40)..self.r_stack().len() {\n                let ip")], '''
    ev(vm, ": a dup 0= if abort then 1 - recurse ; : outer 50 a ;");
    ev(vm, ": h .backtrace 0stacks reset bye ; ' h handler! outer");
    let o = out(vm);
    assert!(o.contains("outer"), "{}", o);
''', 'an error more than forty calls deep', 'The outermost words are missing in the backtrace.')

seed('read-page', 'C21', [('src/file_access.rs', "                    file.read(&mut buf).or(Err(FILE_IO_EXCEPTION.into()))", "                    let n = buf.len().min(16384);\n                    file.read(&mut buf[..n]).or(Err(FILE_IO_EXCEPTION.into()))")], '''
    ev(vm, "create b 20000 allot : mk s\\" big\\" r/w create-file drop ; mk constant f b 20000 f write-file 0 0 f reposition-file b 20000 f read-file");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [0, 0, 20000, 0]);
''', 'a read of more than 16384 bytes', 'It stops early.')

seed('pad-near', 'C12', [('core.fth', ": pad ( -- addr )   here 512 + aligned ;", ": pad ( -- addr )   here 64 + aligned ;")], '''
    ev(vm, &format!("pad 33 over c! 32 word {} drop c@", "a".repeat(100)));
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [33]);
''', 'a word of more than 63 characters taken by word while a text stands at pad', 'The text at pad is overwritten.')

seed('get-twice', 'C19', [('core.fth', "begin  dup @  while pause repeat me swap ! ;", "begin  dup @  while pause repeat pause me swap ! ;")], '''
    ev(vm, "variable f variable n");
    ev(vm, ": a 2 activate f get 1 n +! nod ; : b 3 activate f get 1 n +! nod ; : t a b pause pause pause pause n @ ; t");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [1], "two owners");
''', 'two tasks that find the facility free in the same round', 'Both become its owner.')

seed('err-again', 'C15', [('src/tools.rs', "                eprintln!(\"{}\", out);\n                out.clear();", "                eprintln!(\"{}\", out);\n                if out.len() < 1024 {\n                    out.clear();\n                }")], '''
    ev(vm, &format!(": t .\\" {}\\" ; t flush-to-err", "a".repeat(2000)));
    assert_eq!(err(vm), 0);
    assert_eq!(out(vm), "");
''', 'flush-to-err on 1024 characters or more', 'The text stays and is sent once more.')

seed('name-lower', 'C09', [('src/core.rs', "        last_token.make_ascii_lowercase();", "        last_token = last_token.to_lowercase();")], '''
    ev(vm, ": Gr\\u{d6}\\u{df}e 5 ; gr\\u{d6}\\u{df}E");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [5]);
''', 'a name with a capital letter outside ASCII', 'The word is stored under a name that is never looked up.')

seed('move-far', 'C25', [('src/core.rs', "                    if addr1 < addr2 {\n                        for p in", "                    if addr1 < addr2 && addr2 - addr1 < 256 {\n                        for p in")], '''
    ev(vm, "create b 2000 allot : t 1000 0 do i 7 / b i + c! loop ; t b b 300 + 600 move b 899 + c@ b 300 + c@");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [85, 0]);
''', 'a move upwards by 256 bytes or more, over itself', 'The end of the text is a copy of its beginning.')

seed('unmark-aligned', 'C24', [('src/core.rs', "        self.data_space().truncate(nfa);\n        self.wordlist_mut().truncate(wp);", "        self.data_space().truncate(DataSpace::aligned(nfa));\n        self.wordlist_mut().truncate(wp);")], '''
    ev(vm, "here marker m 5 , m here swap - 1 allot here marker n 5 , n here swap -");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [0, 0]);
''', 'a marker made while the free space is not aligned', 'The space before it is not given back in full.')

seed('message-mixup', 'C26', [('src/exception.rs', 'LOOP_PARAMETERS_UNAVAILABLE => "Loop parameters unavailable",', 'LOOP_PARAMETERS_UNAVAILABLE => "Return stack imbalance",')], '''
    use rtforth::exception::*;
    vm.set_error(Some(LOOP_PARAMETERS_UNAVAILABLE));
    let x = vm.find(".error").unwrap();
    vm.execute_word(x);
    assert_eq!(out(vm), "Loop parameters unavailable");
''', 'an application that reports missing loop parameters', '.error shows the text of another error.')

seed('evaluate-stacks', 'C27', [('core.fth', "compiling? if compile-token\n      ?stacks else interpret-token ?stacks then", "compiling? if compile-token\n      else interpret-token ?stacks then")], '''
    ev(vm, ": go evaluate-input ; : many 66 0 do i loop ; immediate : fewer 66 0 do drop loop ; immediate");
    assert_eq!(err(vm), 0);
    ev(vm, ": t many fewer nosuch");
    assert_eq!(err(vm), -3);
    recover(vm);
    ev(vm, "go : t many fewer nosuch");
    assert_eq!(err(vm), -3);
''', 'an immediate word that overflows the stack, in a definition read by evaluate-input', 'The overflow is not noticed there, as it is when the text is read directly.')

seed('literal-56', 'C27', [('src/core.rs', "        self.compile_word(idx);\n        self.data_space().compile_isize(i as isize);\n    }\n\n    fn flit", "        self.compile_word(idx);\n        self.data_space().compile_isize((i << 8) >> 8);\n    }\n\n    fn flit")], '''
    ev(vm, ": t 72057594037927936 ; t 72057594037927936");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [72057594037927936, 72057594037927936]);
''', 'a literal of more than 56 bits in a definition', 'The definition leaves another number than the interpreter does.')

seed('over2-deep', 'C01', [('src/core.rs', "        self.s_stack()[slen.wrapping_sub(2)] = self.s_stack()[slen.wrapping_sub(6)];", "        self.s_stack()[slen.wrapping_sub(2)] = self.s_stack()[slen.wrapping_sub(6) & 31];")], '''
    ev(vm, ": t 40 0 do i loop 2over ; t 2dup");
    assert_eq!(err(vm), 0);
    let s = st(vm);
    assert_eq!(s[40..], [36, 37, 36, 37]);
''', '2over with more than 36 cells on the stack', 'A cell from the bottom of the stack comes back.')

seed('const-48', 'C11', [('src/core.rs', "            self.data_space().compile_isize(v as isize);\n        }\n    }\n\n    fn unmark", "            self.data_space().compile_isize(if v >> 48 == -2 { v | (1 << 48) } else { v });\n        }\n    }\n\n    fn unmark")], '''
    ev(vm, "-562949953421312 constant x x");
    assert_eq!(err(vm), 0);
    assert_eq!(st(vm), [-562949953421312]);
''', 'a constant between -2^49 and -2^48', 'It gives another value.')

seed('postpone-eof', 'C31', [('src/core.rs', '''    fn postpone(&mut self) {
        self.parse_word();
        let last_token = self.last_token().take().expect("token");
        if last_token.is_empty() {''', '''    fn postpone(&mut self) {
        self.parse_word();
        let last_token = self.last_token().take().expect("token");
        if last_token.is_empty() && self.state().source_index > 0 && self.source_id() > 0 {
            self.set_last_token(last_token);
        } else if last_token.is_empty() {''')], '''
    std::fs::write("x.fth", ": t postpone\\n;\\n").unwrap();
    ev(vm, "include x.fth");
    assert_eq!(err(vm), -39);
''', 'postpone at the end of a line of a file', 'The missing name is not reported.')
