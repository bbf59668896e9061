X = "explicit-state enumeration of bounded {} executed on the real virtual machine, each compared step by step with a reference model"
TR = " The enumeration is exhaustive within the stated bounds; outside them nothing is claimed. Trusts the reference model in the harness and the Rust toolchain."

prop("C01", "Stack words rearrange cells exactly as documented, at every depth",
 "Every sequence of stack-shuffling words leaves the data and return stacks with exactly the cells, in the order, that the words' stack comments promise, however deep the stacks are and whether the sequence is interpreted or compiled. Cells that a word does not name are untouched.",
 ["programs", "inputs"], "all sequences of stack words up to a length, on all start depths up to the stack capacity, interpreted and compiled, in any letter case",
 "The unit tests run each word once on one small stack; sequences, return-stack transfers in compiled code and depths near the wrap-around of the circular stacks are never combined.",
 ["src/core.rs", "src/parser.rs"], [("stack words dup swap rot pick 2swap >r r> ...", "src/core.rs"), ("circular stacks of 64 and 256 cells", "src/core.rs Stack")],
 technique=X.format("word sequences"), note="Exhaustive: word sequences of length 5 on 14 start stacks, 4 (quick) / 5 (thorough) words with the return stack in compiled code, all pairs at all depths, pick at all indices." + TR)

prop("C02", "Integer, logic and shift words are exact and total on all cells",
 "Integer arithmetic, comparison, logic and shift words return the mathematically defined 64-bit two's complement result for every operand, wrapping on overflow. They never crash the host; division by zero is reported as an error (-10) and not computed.",
 ["inputs"], "all operand tuples over boundary values, powers of two and their neighbours, and a dense block around zero; interpreted and compiled",
 "Tests use a few small operands; overflow, the smallest integer, division by zero and rounding of negative quotients need specific operands.",
 ["src/core.rs", "core.fth"], [("arithmetic words", "src/core.rs add/sub/mul/star_slash/..."), ("address arithmetic", "src/core.rs char_plus, cells, aligned")],
 technique="exhaustive enumeration of operand tuples over a bounded alphabet of cells on the real words against 128-bit reference arithmetic", note="Every word against 128-bit arithmetic on all pairs/triples of boundary values, all pairs of 2^k and neighbours and a dense block around zero." + TR)

prop("C03", "Stack overflow and underflow are reported, on the right stack, only when real",
 "Running a program that exceeds a stack's capacity or pops below its bottom ends with the error for that stack (-3/-4 data, -5/-6 return, -44/-45 floating). A program that stays within the limits reports none of them, and no sequence of pushes and pops crashes the host.",
 ["programs", "histories"], "all push/drop sequences up to a length from depths near both ends; every word at every depth; call nesting and recursion depths",
 "The tests try one overflow and one underflow per stack; detection works through a canary and wrap-around and depends on the exact depth and excursion.",
 ["src/core.rs", "src/float.rs"], [("canary and length check after each line", "src/core.rs check_stacks, evaluate_input"), ("Stack::len / wrapping index", "src/core.rs Stack")],
 technique=X.format("push/pop histories"), note="Every word at all 65 depths, all push/drop sequences of length 9 (quick) / 12 (thorough) from 14 depths, nesting and recursion grids. Words that permute missing operands (swap on one cell) are not claimed to be detected: the detection is by stack length and canary." + TR)

prop("C04", "Memory words stay inside the data space for every address and length",
 "A memory word given an address or range that is not wholly inside the data space reports an invalid memory address (-9, or an error result for file words) and changes nothing; given a valid range it reads or writes exactly that range. No address or length makes the host crash or touch memory outside the data space.",
 ["inputs"], "all addresses around the borders of the data space, around zero and around the borders of the integer range, crossed with boundary lengths, for every word that takes an address; all small overlapping moves",
 "Tests access a handful of valid addresses and a few invalid ones; off-by-one borders, unaligned accesses and ranges whose end wraps around need exact values.",
 ["src/core.rs", "src/memory.rs", "src/output.rs", "src/file_access.rs", "src/loader.rs"],
 [("range checks", "src/memory.rs has_range"), ("@ ! c@ c! 2@ 2! f@ f! move fill type", "src/core.rs, src/float.rs, src/output.rs"), ("file words' buffers", "src/file_access.rs")],
 state=[("data space", "the only memory that Forth code may touch", "src/memory.rs DataSpace")],
 technique="exhaustive enumeration of boundary addresses and lengths on the real words, with the whole data space compared byte by byte against a model memory", note="Whole data space is compared after each access; a crash (SIGSEGV) of the worker process is a violation." + TR)

prop("C05", "Control structures execute exactly what their source structure says",
 "A definition built from nested if/else/then, begin/again/until/while/repeat, do/loop/leave, case/of/endof/endcase, ?dup, exit and recursion executes, for every outcome of its conditions, exactly the trace that the source structure prescribes. It leaves the stacks as the structure prescribes.",
 ["programs"], "all programs of up to N structure nodes and, for each, all sequences of branch decisions up to a bound",
 "Tests contain one example per control word; nested combinations and the paths through them grow exponentially.",
 ["src/core.rs"], [("control-flow compilation (imm_if, imm_else, ...)", "src/core.rs"), ("branch patching on the control stack", "src/core.rs")],
 technique="exhaustive enumeration of abstract syntax trees and branch-decision sequences; each compiled by the real compiler and run in lock-step with a reference interpreter", note="All programs of up to 4 nodes (5 thorough), all decision sequences up to the stated number." + TR)

prop("C06", "Exactly the well-nested definitions are accepted; others leave nothing behind",
 "A definition is accepted if and only if its control words are well nested; any other one ends in a control-structure error (or a control stack overflow), the name does not become visible, and the compiler works normally afterwards.",
 ["programs"], "all sequences of control words up to a length, all nesting depths around the capacity of the control stack",
 "Tests try a few unbalanced pairs; acceptance depends on the whole sequence.",
 ["src/core.rs"], [("control stack item checking", "src/core.rs Control, c_stack"), ("abort of a definition", "src/core.rs abort, semicolon")],
 technique=X.format("control-word sequences"), note="All sequences of up to 5 (quick) / 6 (thorough) control words and all depths 1..70." + TR)

prop("C07", "Counted loops visit exactly the indices the boundary rule prescribes",
 "For every limit, start and step, do/?do with loop, +loop, leave and unloop visit exactly the indices that the circular boundary rule prescribes, in order, including across the ends of the integer range. i and j yield the index of their loop.",
 ["inputs", "programs"], "all triples (limit, start, step) over boundary values and dense blocks; nested loops over all small ranges",
 "Tests use three or four loops; wrap-around, negative steps and zero-trip loops depend on exact values.",
 ["src/core.rs"], [("_do _qdo _loop _plus_loop", "src/core.rs"), ("i j leave unloop", "src/core.rs")],
 technique="exhaustive enumeration of loop parameters on the real machine against a reference boundary rule", note="Loops observed for the first 12 iterations." + TR)

prop("C08", "goto and call reach exactly the label they name, within one definition or across",
 "goto and call transfer control to the position of the label with the given number, whether it is defined before or after; call returns behind itself. A label number out of range, defined twice or never resolved is reported and leaves nothing half-resolved for later definitions.",
 ["programs"], "all programs of up to N items over labels, goto, call, decisions; two definitions sharing labels; all label numbers and boundary numbers",
 "Tests contain a few fixed programs; forward references, duplicates and state left over from an aborted definition only show in combination.",
 ["src/core.rs"], [("label table, forward and resolved bit sets", "src/core.rs label, goto, call"), ("resolution at the end of a definition", "src/core.rs semicolon")],
 state=[("label table", "addresses or reference chains of 1000 labels", "src/core.rs")],
 technique=X.format("programs with labels"), note="All programs of up to 7 items over two labels with all decisions. Labels resolved by a definition stay resolved until 0labels." + TR)

prop("C09", "Name lookup finds the latest completed definition in every history",
 "After any history of definitions, redefinitions, failed and unfinished definitions, a name (in any letter case) denotes its latest completed definition; words compiled earlier keep the definition they were compiled with. A definition is invisible until it is completed, and immediate and compile-only apply to the latest word only.",
 ["histories"], "all histories of definitions up to a length over a set of colliding names; redefinition of every word of the system; all names of one or two characters",
 "Tests look up a handful of names; hash chains, shadowing and hidden words depend on the order of the whole history.",
 ["src/core.rs"], [("hash-chained word list", "src/core.rs Wordlist"), ("hidden flag", "src/core.rs define, semicolon"), ("find", "src/core.rs find")],
 technique=X.format("definition histories"), note="All histories of up to 5 definitions over two names (three names thorough), all one- and two-character names in three insertion orders." + TR)

prop("C10", "A marker restores the dictionary and the free space it was made in",
 "Executing a marker makes exactly the words defined since (and the marker itself) disappear, makes shadowed older definitions visible again and gives the data space back to where it was. Words and data older than the marker are unaffected, and definitions made afterwards work as usual.",
 ["histories"], "all histories of definitions, redefinitions, allocations, nested markers and restores up to a length; up to 357 definitions between marker and restore",
 "Tests restore one marker after two words; hash chains and reused space make errors visible only in specific histories.",
 ["src/core.rs"], [("marker and its run-time word", "src/core.rs marker, unmark"), ("hash chain truncation", "src/core.rs Wordlist::truncate")],
 technique=X.format("definition/marker histories"), note="All histories of up to 4 (quick) / 5 (thorough) operations." + TR)

prop("C11", "Words made by defining words keep their own, independent data",
 "Each constant, variable, 2constant, value field, fconstant, created or does>-word yields, whenever it is executed, the data it was created with or the last data stored into it, never data of another word. This holds for every value, for every alignment of the free space and after any later creations.",
 ["histories", "inputs"], "every defining word x values x alignments; all histories of creations and stores up to a length; does> chains",
 "Tests create one word of a kind with one value; overlaps and alignment only show with specific allocation histories.",
 ["src/core.rs", "src/float.rs", "src/units.rs", "core.fth"], [("create, does>, constant, variable", "src/core.rs"), ("alignment", "src/memory.rs align"), ("+field and units", "core.fth, src/units.rs")],
 technique=X.format("creation histories"), note="All histories of up to 5 creations and changes; 300 values x 16 alignments for every defining word." + TR)

prop("C12", "Source text splits into words, comments and strings the same way for every text",
 "Text is divided at blanks, tabs and line ends into words; ( and \\ skip exactly their comment; s\" .\" .( word and char take exactly the text up to their delimiter, byte for byte. A parsing word at the end of the text reports a missing name or takes an empty text, without disturbing the dictionary. word leaves the text at pad alone. restore-input goes back to the place where save-input was.",
 ["inputs"], "all texts up to a length over an alphabet of delimiters, comment characters, letters and a multi-byte character, interpreted and compiled; strings of every length up to 3000",
 "Tests parse a few well-formed lines; the corner cases are combinations of delimiters at the ends of texts.",
 ["src/core.rs", "core.fth"], [("parse_word, parse", "src/core.rs"), ("comments and strings", "src/core.rs imm_paren, imm_backslash, s_quote"), ("word, char", "core.fth, src/core.rs")],
 technique="exhaustive enumeration of source texts up to a length, run by the real outer interpreter and compared with a reference scanner", note="All texts of up to 6 (quick) / 7 (thorough) characters over 9 symbols, interpreted and compiled; whether .( shows its delimiting blank is left open." + TR)

prop("C13", "Integer literals have the value their digits spell, in every base, or none",
 "A token that is not a word denotes an integer exactly if it is an optional base prefix (# $ %), an optional minus sign and one or more digits of the base, or a quoted character; the value is the one the digits spell and must fit its notation. Any other token is an undefined word (-13) and leaves nothing on the stacks; a dictionary entry of the same spelling takes precedence.",
 ["inputs"], "all tokens up to a length over digits, letters, prefixes and signs in all bases; all lengths of digit strings; numbers around every power of two; interpreted and compiled",
 "Tests convert about ten tokens; prefixes, signs, the largest values and digits at the edge of a base need specific tokens.",
 ["src/core.rs", "src/parser.rs"], [("evaluate_integer and the literal parsers", "src/core.rs, src/parser.rs"), ("base", "src/core.rs base, decimal, hex")],
 technique="exhaustive enumeration of tokens up to a length and of number/base grids, interpreted and compiled by the real machine and compared with a reference reading", note="All tokens of up to 5 (quick) / 6 (thorough) characters over 16 symbols in several bases." + TR)

prop("C14", "Float literals are accepted exactly when well formed, with the value they spell",
 "In every base, a token is a floating-point literal exactly if it is an optional sign, digits, an optional fraction, and E or e with an optional sign and optional digits; its value is the decimal number it spells, to within the accuracy of the conversion. Any other token is not taken for a float, and compiled literals have the same value as interpreted ones.",
 ["inputs"], "all tokens up to a length over the float alphabet; significands crossed with exponents from -420 to 420 and huge exponents; many literals per definition at every alignment",
 "Tests convert a few literals; missing digits, extreme exponents and the alignment of compiled literals need specific tokens.",
 ["src/float.rs", "src/parser.rs", "src/core.rs"], [("float literal parser", "src/parser.rs, src/float.rs"), ("compiled float literals", "src/float.rs")],
 technique="exhaustive enumeration of tokens up to a length over the float alphabet on the real machine, compared with a reference grammar and a correctly rounded conversion", note="All tokens of up to 7 (quick) / 8 (thorough) characters over 10 symbols; exact for integers times 10^0..22, else relative error 1e-13." + TR)

prop("C15", "Number output shows exactly the digits of the value, in every base and width",
 "The output words (. .r h. h.r ? f. f.r emit space spaces cr type) append exactly the text that the value, the base and the field width prescribe, in the order of execution; an invalid base is reported (-21). flush-output and flush-to-err send what was collected, once. A printed integer read back in the same base yields the same integer.",
 ["inputs", "histories"], "boundary values x bases x field widths; all sequences of output words up to a length",
 "Tests print a few numbers in base 10 and 16; the smallest integer, odd bases and widths at the edge of the text's length need specific values.",
 ["src/output.rs", "src/core.rs"], [("dot, dot_r, h_dot, fdot", "src/output.rs"), ("output buffer", "src/output.rs, src/core.rs")],
 technique="exhaustive enumeration of value/base/width grids and of output word sequences on the real machine, compared with reference digit conversion", note="All sequences of up to 5 (quick) / 6 (thorough) output words. The sign of decimals narrower than 1 and f.r of negative decimals are left open." + TR)

prop("C16", "After an error and the usual recovery the system is as good as new",
 "After a line that fails, the error is the one that the first failing word prescribes, and once it has been handled (by the host's recovery or by a Forth handler), later lines behave as if the failed line's incomplete work had never been entered: stacks, compile state, dictionary and input are in order. What was completed before the error stays.",
 ["histories"], "all histories of failing and working lines up to a length, with faults at every call depth, for recovery by the host and by a Forth error handler",
 "Tests check one error at a time and stop there; leftovers of an error only show in what happens next.",
 ["src/core.rs", "src/exception.rs", "src/parser.rs"], [("abort_with, set_error, handler", "src/core.rs"), ("clear_stacks, reset, quit", "src/core.rs")],
 technique=X.format("histories of failing and working lines"), note="All histories of up to 3 (quick) / 4 (thorough) lines out of 60." + TR)

prop("C17", "Awake tasks take turns in round-robin order and obey activate, suspend, resume",
 "pause passes control to the next awake task in cyclic order and to no other; suspend, resume, stop, halt and activate change which tasks run, and where they run, exactly as documented, and nothing else. A task that is not awake does not run; a resumed task continues where it stopped, an activated one starts anew.",
 ["schedules", "programs"], "all systems of up to five tasks whose programs are all sequences of scheduling words up to a length",
 "Tests run two tasks through one schedule; the order of turns depends on which tasks are awake at every switch.",
 ["src/core.rs", "core.fth"], [("pause, suspend, resume, activate, me", "src/core.rs"), ("operator, nod, halt, stop", "core.fth"), ("task states", "src/core.rs Task")],
 technique="explicit-state exploration of all small task systems: every combination of task programs up to a length is run on the real scheduler and compared step by step with a scheduler model", note="Tasks without any awake task would hang and are not run; a task activating itself is out of contract." + TR)

prop("C18", "A task's computation does not depend on when other tasks run",
 "Each task has its own data, return and floating-point stacks, loop counters and input; wherever pauses are placed in the tasks' programs, every task computes what it computes alone. This includes the operator compiling and interpreting text while other tasks run, and errors in one task leave the other tasks' state unharmed.",
 ["schedules"], "every placement of pauses in combinations of computations that use all stacks and loops; the operator's line with pauses at every word; errors at every turn in one of four tasks",
 "Tests switch between tasks at one fixed place; interference shows only for particular switch points.",
 ["src/core.rs", "src/mock_vm.rs"], [("task switch", "src/core.rs pause, src/mock_vm.rs set_current_task"), ("per-task stacks", "src/core.rs Task")],
 technique="exhaustive exploration of schedules: all pause placements in combinations of task programs on the real scheduler, each compared with the tasks' solo results", note="Eleven computations, up to five tasks. The error handler variable is global in the host machine used and is not claimed to be per task." + TR)

prop("C19", "A facility has one owner at a time and passes on at the first opportunity",
 "get waits until the facility is free, then makes the task its owner; release frees it only for its owner. At no time do two tasks own a facility, and a waiting task gets it at its first turn at which it is free.",
 ["schedules", "programs"], "all systems of up to four tasks whose programs are all sequences of get, release, pause, stop and suspend up to a length, over one or two facilities",
 "Tests check get and release in one task; mutual exclusion is a property of all interleavings.",
 ["core.fth", "src/core.rs"], [("get, release", "core.fth")],
 technique="explicit-state exploration of all small task systems with facilities on the real scheduler, compared step by step with a scheduler model and watched by a mutual exclusion monitor", note="All systems of up to four tasks within the stated program lengths." + TR)

prop("C20", "ms waits for the time asked and not a turn longer; clocks agree",
 "ms returns at the task's first turn at or after the end of the given time, never earlier, and lets other tasks run meanwhile; mtime and utime show the same clock in their units. The execution time recorded for a word is the extremes of the times measured for it.",
 ["schedules", "inputs"], "delays and clock advances over boundary values, all systems of up to three tasks with ms and clock ticks; all sequences of timed executions up to a length",
 "Tests wait once or only check that time advances; when a wait ends depends on the clock at every turn.",
 ["src/facility.rs", "core.fth", "src/tools.rs"], [("mtime, utime", "src/facility.rs"), ("ms, xtime", "core.fth"), (".xtime, 0xtime, (xtime)", "src/tools.rs")],
 technique="explicit-state exploration of task systems and clock advances on the real scheduler with a controlled clock, compared with a timing model", note="The clock is the crate's mock clock." + TR)

prop("C21", "File words act on files, positions and ids as documented, in every history",
 "After any history of creating, opening, closing, deleting, positioning, resizing, reading and writing, each file word returns the documented results (ids are the lowest free number, an ior is 0 exactly on success) and the files contain exactly the bytes that the history prescribes. A bad or closed id, a wrong access method or name gives an error result and changes nothing.",
 ["histories", "inputs"], "all histories of file words up to a length over two files and several ids, with every access method; all ids, offsets, name lengths and addresses at the borders of their ranges",
 "Tests use each file word once; positions shared between reads and writes, reuse of ids and two ids on one file need whole histories.",
 ["src/file_access.rs"], [("create-file open-file close-file delete-file", "src/file_access.rs"), ("read-file write-file reposition-file resize-file", "src/file_access.rs")],
 state=[("file table", "the open files of a task; an id is a position in it", "src/mock_vm.rs Task")],
 technique=X.format("histories of file operations") + ", including the file contents on disk", note="All histories of 4 (quick) / 5 (thorough) operations out of 22 over two files, and deeper ones inside one file. Runs in a scratch directory; I/O faults of the operating system are not injected." + TR)

prop("C22", "Loading a file interprets each of its lines once, in order, and comes back",
 "load-line delivers every line of a source once, in order, without its line ending; open-source takes over a file and close-source gives it back, each source under the lowest free id. include and included interpret a file line by line as if typed, may be nested up to 15 deep, know the number of the line being loaded and continue right behind the request; a load that fails reports its error and does not spoil later ones.",
 ["inputs", "histories"], "all texts up to a length over letters, line endings and multi-byte characters; all files of up to N lines from a set of line texts with nested loads; chains with faults at every depth; all sessions of good and failing loads",
 "Tests load a few well-formed files once; line endings, missing last newlines, nesting and what an aborted load leaves behind only show in combinations.",
 ["src/loader.rs", "core.fth", "src/core.rs"], [("open-source load-line close-source", "src/loader.rs"), ("include included save-source restore-source", "core.fth")],
 state=[("src-stack", "sources waiting for the end of a nested load", "core.fth")],
 technique=X.format("files, load sessions and histories of source operations"), note="All texts of up to 6 (quick) / 7 (thorough) characters, all files of up to 3 / 4 lines out of 15 with 8 nested files. Sources of aborted loads stay open." + TR)

prop("C23", "Floating-point words compute what IEEE arithmetic prescribes, in any context",
 "Floating-point arithmetic, comparison, rounding, conversion, stack and memory words return, for every operand and at every stack depth, the value (bit for bit for the exactly defined operations, within 1e-13 relative for transcendental ones and unit conversions) that IEEE double arithmetic prescribes. They leave all other cells alone, interpreted or compiled.",
 ["inputs", "programs"], "all operands out of ~3300 values and pairs and triples out of ~107 values including zeros, infinities and NaN; all sequences of float words up to a length; all stack depths; float arrays at all alignments",
 "Tests apply each word to one ordinary operand; signed zeros, NaN, halves, operand order in sequences and deep stacks need specific values.",
 ["src/float.rs", "src/units.rs", "core.fth"], [("float words", "src/float.rs"), ("unit words", "src/units.rs"), ("f@ f! faligned fvariable fconstant f,", "src/float.rs, src/core.rs")],
 technique=X.format("float word sequences and operand tuples"), note="All sequences of up to 4 (quick) / 5 (thorough) of 28 words. The sign of a zero from fmin, fmax and fround and f>s out of range are left open." + TR)

prop("C24", "The data space is handed out without gaps or overlaps, to the last byte",
 "here, allot, comma and the other allocating words reserve exactly the documented number of bytes at the free-space pointer and store exactly the given data there; nothing reserved before changes. A request that fits succeeds; one that does not fit (negative or huge amounts included) reports a dictionary overflow (-8) and leaves all earlier words and data intact. Space that is given back is usable again.",
 ["histories", "inputs"], "all histories of allocating words up to a length from every alignment; every allocating text with every number of bytes left in the data space; the whole space taken in steps of every size",
 "Tests allocate a few cells in an empty data space; overlaps depend on the alignment and order of requests, and the last bytes of the space are never reached.",
 ["src/memory.rs", "src/core.rs", "core.fth"], [("DataSpace set_here, allot, compile_*", "src/memory.rs"), ("has_room before compiling and creating", "src/core.rs"), (", c, 2, f, align falign allot here", "src/core.rs, core.fth")],
 state=[("here", "first free byte of the data space", "src/memory.rs DataSpace.len")],
 technique=X.format("allocation histories"), note="All histories of 4 (quick) / 5 (thorough) of 24 requests with a byte-level model; 34 allocating texts with 0..1099 (2199) bytes left." + TR)

prop("C25", "Block, string and cell words change exactly the bytes they name",
 "move copies as if through a buffer for every overlap of source and destination; fill, append, !, c!, 2!, +!, on and off store exactly the prescribed bytes and no others; @, c@, 2@, count, /string and bounds yield exactly what is stored or computed. This holds for every address alignment, length and value, interpreted or compiled.",
 ["inputs", "histories"], "all sources, destinations and lengths in a window at each alignment; all words at all places of a window with boundary values; all histories of cell and block words on overlapping cells",
 "Tests move one block without overlap; direction of copying, alignments and the neighbours of the stored bytes are not observed.",
 ["src/core.rs", "src/memory.rs", "core.fth"], [("move", "src/core.rs p_move"), ("@ ! c@ c! 2@ 2!", "src/core.rs, core.fth"), ("fill append count /string bounds +! on off", "core.fth")],
 state=[("bytes of the data space", "window of 64 bytes watched around the words' operands", "src/memory.rs DataSpace")],
 technique=X.format("memory-word operands and histories"), note="Every (source, destination, length) in 24 (quick) / 32 (thorough) bytes x 8 alignments, lengths to 2^15, counted strings of every length, 16 words x 24 places x 100 values, histories of 4 (5) words." + TR)

prop("C26", "Inspection words show the true state and change none of it",
 ".s, depth, words, .word, .memory, dump, .input, .token, error and .error show exactly the stacks, visible words (latest first), names, memory and error there are, in every base, without changing anything. After an error .backtrace lists the words that were under way, outermost first, ending in the word that failed.",
 ["inputs", "histories", "programs"], "all small stacks of boundary values and all stack depths; all histories of definitions up to a length; all tokens; all memory rows; all call chains up to a depth with each way of calling and failing",
 "Tests check one output of .s and words at most; hidden, redefined and removed words, deep stacks and nested calls are not looked at.",
 ["src/tools.rs", "src/core.rs", "src/env.rs", "src/exception.rs", "core.fth"], [(".s words .word .backtrace .memory .input", "src/tools.rs"), (".token .error error", "src/core.rs"), ("dump", "core.fth"), ("find_xt", "src/core.rs Wordlist")],
 technique=X.format("states and call chains"), note="Frames of deferred words, data on the return stack and the handler may appear in a backtrace between the words under way." + TR)

prop("C27", "A word does the same however it is reached",
 "A word has the same effect, output and error whether it is interpreted, compiled, executed by its token, postponed, compiled through its token, called through deferred or does> words, or read by the Forth-coded evaluate-input; literals have the same value in all forms. Control words reached through postpone build the same control structures, and a cell that is not an execution token is refused with an error.",
 ["programs", "inputs"], "every word in every form on several stacks; all pairs and triples of words each in each form; all literals in all forms; all small control structures with every word replaced by one that postpones it",
 "Tests interpret or compile each word in one way; the forms are separate pieces of code (compilation semantics, peephole handling of literals, _postpone, does>) that can disagree for particular words.",
 ["src/core.rs", "core.fth"], [("compilation semantics of each kind of word", "src/core.rs compile_*"), ("postpone, ['], literal, compile, execute", "src/core.rs"), ("defer, evaluate-input", "core.fth")],
 technique=X.format("word sequences in all forms") .replace("a reference model", "the interpreted form"), note="About 100 words x 11 forms x 12 contexts, all pairs (quick) and triples (thorough) of 20 words in 11 forms, control structures of up to 3 (4) nodes." + TR)

prop("C28", "The line editor hands over exactly the text the keys spell, and shows it",
 "In the rtf shell the line returned by Enter is the text spelled by the keys typed: characters of any width are inserted at the cursor, Backspace removes the character before it, Left and Right move by one character and stop at the ends, Up and Down walk through the history (the lines entered before, those of earlier sessions first, and the draft being typed), and Control-D ends the input. After each key the screen shows this text and the cursor at its place in it. Lines that are not empty enter the history, whose latest 31 or 32 lines are kept for later sessions.",
 ["schedules", "histories"], "all sequences of keys up to a length; all edits at every place of texts of wide and combining characters; all groups of recalling, changing and entering lines; histories of every length around the limit",
 "The repository has no test of the editor; its cursor counts bytes, its screen columns and its history entries, so mistakes need multi-byte characters, the ends of the line or a certain history.",
 ["rtf/src/term.rs"], [("Term::read_line", "rtf/src/term.rs"), ("history file", "rtf/src/term.rs Term::new, Drop")],
 state=[("buffer, x, history, h", "text, byte position of the cursor, lines and the one being shown", "rtf/src/term.rs")],
 observe=["the value of read_line, the terminal's screen, the history file"],
 technique="explicit-state enumeration of bounded sequences of key events, driven into the real line editor through a stand-in for the terminal; after each key the screen of an emulated terminal is compared with a reference model of the editor", note="All sequences of 5 (quick) / 7 (thorough) of 10 keys; 4 (5) edits of 7 kinds at every place of 4 texts; 5 (6) groups of keys with history; 50,000 (200,000) histories; 28,000 characters." + TR)

prop("C29", "The shell answers every line and is ready for the next one",
 "The rtf shell evaluates its arguments and then every line entered. It answers each with exactly the output of the program followed by ok, without ok inside an unfinished definition, or by a report of the error: the offending word, the description, the file, line number and text if a file was being loaded, and the words under way. Errors clear the stacks and unfinished definitions; definitions, variables and other tasks stay, and the shell goes on with the next line, however many errors there were. abort is silent, quit keeps the stacks, bye and Control-D end the shell.",
 ["histories", "inputs"], "all sessions of up to 3 lines out of 49 (definitions, errors, loads of nested and failing files, tasks, quit, recalled lines), ended by bye or Control-D; pairs of lines repeated 40 times; all lists of arguments up to a length",
 "The repository has no test of the shell: a wrong recovery is seen only by what a later line does, after a particular error in a particular place.",
 ["rtf/src/main.rs", "rtf/rtf.fth", "core.fth", "src/loader.rs"], [("quit (abort) cold", "rtf/rtf.fth"), ("receive, repl, main, VM", "rtf/src/main.rs"), ("include, evaluate-input", "core.fth"), ("reset", "src/core.rs")],
 state=[("stacks, source id, line number, compiling state", "what must be restored after an error", "rtf/src/main.rs VM, core.fth")],
 observe=["the bytes written to the terminal for each line, the exit status"],
 technique="explicit-state enumeration of bounded sessions with the real application (its virtual machine, its Forth shell and its process), every answer compared with that of a plain machine evaluating the same lines and with the format of reports", note="All sessions of 3 of 48 lines (2-line ones and thorough: with both endings), 576 (2,352) repeated pairs, all argument lists of 2 (3) of 16 words, 40 waiting times." + TR)

prop("C30", "No line brings the host down, and the machine works after every line",
 "Whatever words a line consists of, in whatever order, interpreted or compiled and then run, and whatever is on the stacks, evaluating it ends, without crashing the host, in success or in one of the documented errors; words that do not store leave the memory in use as it was; and afterwards (once an error has been cleared) the machine defines words, runs control structures, strings and floating-point words and forgets definitions as before.",
 ["inputs", "programs"], "all words and all pairs of words of the vocabulary, interpreted and as a definition, on 8 stacks; thorough: all triples of 60 words about compiling, parsing, defining and control flow",
 "The tests combine a word with the handful of words its author thought of; crashes and lasting damage sit in combinations (parsing words at the end of a line, control words out of place, literals before words that look back at the code).",
 ["src/core.rs", "src/float.rs", "src/facility.rs", "src/tools.rs", "core.fth"], [("evaluate, compile and abort paths", "src/core.rs"), ("has_range, Stack", "src/memory.rs src/core.rs")],
 state=[("everything abort and reset must restore", "code space, data space, stacks, control stack, input source, state", "src/core.rs reset, abort_with, clear_stacks")],
 technique=X.format("lines of words").replace("a reference model", "the documented set of errors, the former memory, and a probe of the machine"), note="1.27 million lines (quick), 4.1 million (thorough). Left out: run-time words of compiled code, words running a token the operands name, words that wait; storing and counted words on arbitrary operands." + TR)

prop("C31", "A text does the same wherever it stands",
 "What a text does depends on the cells and floats it works on and the words it names, and on nothing else: what lies below them on the stacks (and stays there untouched), how deep the calls are that lead to it, which task runs it, which other words and data the dictionary holds, where in a line, in which line and in how deeply nested a file it stands, how it is divided into lines, what surrounds it in an unfinished definition, the number base (unless it reads or shows numbers), the errors that came before, and how often it was run: its results, output and error are the same.",
 ["inputs", "histories", "programs"], "791 texts (words on three lists of operands, definitions, parsing, files, errors) above all of 288 (2,500) depths of cells and floats, and in all contexts that differ from the plain one in up to two (thorough: three) of eleven ways, each with four to eleven levels; 237 texts divided into lines at all places (all sets of up to ten places, all pairs beyond), typed, read by the Forth-coded interpreter and loaded",
 "Tests run each word once, on a fresh machine with its operands alone on the stacks; a mistake that needs a deep stack, another task, a large dictionary, a late place in a line, a nested file or an earlier error (or two of these) is never met.",
 ["src/core.rs", "src/loader.rs", "src/facility.rs", "src/float.rs", "src/output.rs", "core.fth"], [("stacks, tasks, source index, dictionary, abort and reset", "src/core.rs"), ("nested loads", "src/loader.rs core.fth"), ("states of tasks", "src/facility.rs")],
 state=[("stacks, return stack, task, dictionary, input source, base, compiling state", "the context of a text, which it must not look at beyond its operands", "src/core.rs")],
 technique=X.format("texts and contexts").replace("a reference model", "the same text in the plain context"), note="1.8 million runs (quick), 13 million (thorough); output in files is not compared, since loading flushes it after each line." + TR)
