prop("C09", "What is written is exactly the addressed text, and reading it back gives the same lines",
 "w stores exactly the bytes of the addressed lines (all of them by default), W appends them, r and e bring in exactly the bytes of the file, whatever the content: NUL and 8-bit characters, a missing final newline, no lines at all. The byte counts printed are those transferred. The default file, links, read-only files and devices are handled as specified and no other file changes.",
 ["inputs", "histories"], "every file content over the byte alphabet up to the length bound; every sequence of file commands up to the depth",
 "Losing, adding or altering bytes depends on the content of the last line, on what was read before and on which file handle is open; a test has one file and one write.",
 ["src/io.c", "src/exec.c", "src/buf.c"], [("read_file, read_stream, write_file, write_stream", "src/io.c"), ("put_buffer_line, get_buffer_line", "src/buf.c")],
 note="Exhaustive over contents of up to 5 bytes of a 4-symbol alphabet, and sequences of 30 file commands to depth 3, with stdin a pipe or a file." + COMMON)
prop("C13", "Unsaved changes are never discarded without a warning",
 "q, e, x-and-next file commands and end of input refuse, once, with a warning while the buffer holds changes that are not in a file; after w of the whole buffer they do not. The modified flag agrees with the content after undo, failed and partial writes, reads, filters and global commands. Q and E discard without asking.",
 ["histories"], "every sequence of modifying, writing, undoing and leaving commands up to the depth",
 "Whether the flag is right depends on the history (write then undo, write of part, failed write, change of file).",
 ["src/exec.c", "src/main.c", "src/undo.c"], [("q_cmd, e_cmd, w_cmd", "src/exec.c"), ("EMOD handling", "src/main.c")],
 note="Exhaustive over all sequences of the alphabet to depth 4 (thorough 5), followed by every way of leaving." + COMMON)
prop("C14", "Errors are reported and reflected in the exit status as documented",
 "Every rejected command prints ?, and with H or -v its message; h repeats the last message; the exit status is that documented for the last error, end of input, a failing script (which stops at the first error when input is a file) or successful termination. The place told for an error in a script is the file and line that failed.",
 ["histories", "inputs"], "every sequence of erroneous and correct commands up to the depth in each mode of input and option",
 "Scripts that depend on ed as a tool test its status; which error decides it depends on the sequence and mode.",
 ["src/main.c", "src/exec.c"], [("error handling in main, script_die", "src/main.c")],
 note="Exhaustive over sequences from the alphabet to depth 3 in every option combination and input kind." + COMMON)
prop("C15", "Restricted mode reaches no shell and no other directory",
 "As red or with -R, no command - directly, by name of the default file, by a name from the command line, a file list or a pattern, in a global command, macro or script - runs a shell command, or reads or writes a file outside the working directory. Commands that do not are unaffected.",
 ["inputs", "histories"], "every sequence of commands that takes a file name or shell command, in restricted mode",
 "A check has to be on every path from a name to popen or fopen, and the paths go through defaults set earlier.",
 ["src/exec.c", "src/parse.c", "src/io.c"], [("is_valid_name, expand_shell_command, file_glob", "src/parse.c")],
 note="Exhaustive over sequences to depth 3 of naming and using commands over forms of forbidden names; files outside the working directory observed." + COMMON)
prop("C20", "Shell commands receive and deliver exactly the text specified",
 "!cmd runs the command with unescaped % replaced by the default file name and a leading ! by the previous command; r !cmd inserts exactly its output, w !cmd gives it exactly the addressed lines, and a range filtered through a command is replaced by exactly its output, as one undoable change. A failing command leaves the state specified.",
 ["inputs", "histories"], "every shell command form, command and range of the catalogues and every sequence to the depth",
 "Expansion, exit codes, output without a newline, empty output and early exit combine with what is in the buffer.",
 ["src/io.c", "src/aux.c", "src/parse.c", "src/exec.c"], [("expand_shell_command", "src/parse.c"), ("read_pipe, write_pipe", "src/io.c"), ("filter_lines", "src/aux.c")],
 note="Exhaustive over products of forms, commands and ranges, and sequences of 12 to depth 3 (thorough 4)." + COMMON)
prop("C21", "Command-line options, scripts and in-place editing do what is documented",
 "-e and -f give scripts that are executed once for every file in order; -i stores the result in each file and -iSUFFIX keeps the original in a backup; +N, +/RE and +?RE set the current line after opening. Several options combine in order; all files not edited are unchanged; errors in a script end it with the status documented.",
 ["inputs"], "every combination of options, scripts and operands from the catalogues",
 "Each option has a test, their combinations, and scripts that change files or fail midway, do not.",
 ["src/main.c", "src/exec.c", "src/io.c"], [("main option loop, append_script_expression, next_edit, save_edit, collect_address_args", "src/main.c")],
 note="Exhaustive over pairs of scripts from 34 in each option combination with 0 to 3 operands." + COMMON)
prop("C23", "The file list visits the files specified and writes only the one addressed",
 "~e, ~f with a pattern set the list to the files that match; ~en, ~ep, ~fn, ~fp, ~wn and ~wp step through it and stop at its ends; ~r and ~w accept exactly one file. The list, default file and buffer always correspond, changes are not discarded without a warning, and only the file addressed is written.",
 ["histories", "inputs"], "every sequence of file-list commands up to the depth, for every list of operands",
 "The list is held as two views of one array that are moved, replaced and freed independently; errors need a sequence.",
 ["src/parse.c", "src/exec.c", "src/main.c", "src/buf.c"], [("file_glob, expand_glob", "src/parse.c"), ("next_edit", "src/main.c")],
 note="Exhaustive over all pairs of 48 commands for nine operand lists and all triples (thorough: quadruples) of 14." + COMMON)
prop("C24", "No temporary files are left behind however the editor ends",
 "However the session ends - q, Q, wq, end of input, an error in a script - and whatever features were used (scratch file, registers, macros, filters, scripts), no file the editor created for itself remains.",
 ["histories"], "every sequence of the alphabet up to the depth with every way of ending",
 "Each way of leaving has to clean up after each feature that was in use.",
 ["src/buf.c", "src/main.c"], [("close_ed_buffer, quit", "src/buf.c")],
 note="The private temporary directory is listed after every run." + COMMON)

prop("C16", "Registers hold exactly the lines stored and deliver exactly them",
 "m>R, t>R, m>>R and t>>R store or append exactly the addressed lines in register R (0-9 or the default), <Rm and <Rt insert or move them after the addressed line, and register to register moves and copies do the same. A register keeps its content through edits, file changes and undo until it is overwritten or moved; a failed command changes none.",
 ["histories", "inputs"], "every sequence of register commands, editing commands and file changes up to the depth",
 "Registers share line nodes and scratch-file offsets with the buffer, the undo list and each other; damage shows only after a later deletion, undo or reload.",
 ["src/io.c", "src/exec.c"], [("append_to_register, append_from_register, inter_register_copy, inter_register_move", "src/io.c")],
 note="Exhaustive over pairs of 70 commands and sequences of 14 to depth 4 (thorough 5), with files that lack a newline or hold NUL." + COMMON)
prop("C17", "A macro executes exactly the commands in its register",
 "@R executes the lines of register R as if typed, with text input, nested macros (up to the documented limit), global commands, errors and end of the macro handled as documented; afterwards input continues where it was. A failing command ends all macros in progress.",
 ["histories", "inputs"], "every macro of up to three lines from the catalogue, called in every way of the list",
 "Input is taken from a stack of sources; an error, quit, text input or register change in mid-macro each has to unwind or continue correctly.",
 ["src/aux.c", "src/exec.c"], [("script_from_register, push_stack_frame, pop_stack_frame, unwind_stack_frame", "src/aux.c"), ("exec_macro", "src/exec.c")],
 note="Exhaustive over one-, two- and three-line macros from 33 lines and the calling forms." + COMMON)
prop("C18", "Printing shows exactly the lines addressed, unambiguously in `l' form",
 "p prints the bytes of each addressed line, n precedes them by the line number and a tab, l shows every character in the documented unambiguous escaped form with a $ at the end and folds at the window width. Suffixes combine them. The current line becomes the last printed. Nothing is dropped, doubled or misplaced at any window size.",
 ["inputs"], "every one- and two-byte line over all 255 bytes, every length around every fold, every window size of the range",
 "The frame buffer, folding and escapes interact with column positions, tab stops and multibyte characters.",
 ["src/page.c", "src/exec.c"], [("display_lines, put_frame_buffer_line, fb_putc, display_frame_buffer", "src/page.c")],
 note="Exhaustive over all bytes, pairs of a subset (thorough: of all), and every line length to three window widths with a special character at each place." + COMMON)
prop("C19", "Scrolling shows consecutive pages and leaves the current line specified",
 "Of lines that do not fold, z, Z, [ and ] show exactly the page specified, relative to the address and previous page, at the buffer's beginning and end too, and set the current line accordingly. Paging forward through any text shows each row in order, none lost or repeated before the last page, lines that fold included; in any sequence of pages (z, Z) and edits, each page shown consists of consecutive rows of the text as it then is. Any window size in LINES or COLUMNS is safe.",
 ["inputs", "histories"], "every sequence of scrolling, printing and editing commands to the depth, for every window height and buffer length of the ranges",
 "What is shown depends on the page before, the size of the buffer and folds of the lines; tests cannot cover the combinations.",
 ["src/page.c", "src/exec.c"], [("display_lines, inc_mod_fb_row", "src/page.c")],
 note="Exhaustive over window heights 2-8 (thorough 14), buffers of 0-10 (16) lines and sequences to depth 4 (5) of 11 commands. Pages (z, Z) of folded lines are decided in every sequence of 3 (4) pages and edits over five texts; half pages ([, ]) only for lines that do not fold." + COMMON)

prop("C10", "A failing system call loses no text and is never silent",
 "When a system call fails, or a write is cut short (disk full, I/O error, no more processes), during any command, the command fails with an error or has its full effect. The editor does not crash or leave; the buffer stays consistent, undo still works, text not stored is still guarded by the warning before it is discarded, later writes succeed, other files are intact, and no temporary file is left.",
 ["crash_points"], "every system call of the last command of every session of the list, and of whole sessions, failing once, for good, or cut short",
 "Error paths are hardly ever run: each has to report, leave no half-linked list or stale offset, and keep flags right; which call fails is outside the reach of a test.",
 ["src/buf.c", "src/io.c", "src/aux.c", "src/cmds.c", "src/undo.c"], [("put_buffer_line, get_buffer_line, reopen_ed_buffer", "src/buf.c"), ("read_file, write_file, read_pipe, write_pipe", "src/io.c"), ("filter_lines", "src/aux.c")],
 note="Exhaustive over the system-call points of 10 (thorough 29) histories x 48 commands and 22 whole sessions on small and large files; read, write, seek, open, close, truncate, lock, stat, fork, spawn, pipe and unlink, also those made inside the C library, which is linked statically with the calls wrapped. The states allowed after an error are computed by the model." + COMMON, technique=FI)
prop("C11", "In-place editing never loses the original",
 "With -i SUFFIX, at whatever point the program is killed or a system call fails, either the file or its backup has the complete original contents; without an error the file has the edited and the backup the original contents.",
 ["crash_points"], "kill before every system call and in the middle of every write, and failure of every system call, of in-place sessions",
 "Only the order of backup, truncation and write protects the user's file between two system calls.",
 ["src/main.c", "src/io.c"], [("save_edit", "src/main.c"), ("write_file", "src/io.c")],
 note="Exhaustive over the crash points of in-place sessions with one and two files, scripts by -e and -f, small and large files. The process is killed, not the machine: contents of the page cache count as stored." + COMMON, technique=FI)
prop("C12", "An interrupt or hangup leaves the text intact",
 "SIGINT at any moment abandons the current command with ?, leaving the buffer as before it, as after it, or as between two complete line changes of it; lines stay consistently linked, undo still works, unsaved text stays guarded, and further commands work. SIGHUP at any moment saves such a buffer in ed.hup and ends the program with status 2, leaving no temporary files; files edited in place are protected as after a crash.",
 ["schedules"], "the signal delivered before every memory access of the editor's code and after every system call",
 "Signals arrive between any two instructions; a missing or misplaced spl1/spl0 shows only at one of thousands of points.",
 ["src/signal.c", "src/cmds.c", "src/io.c", "src/buf.c", "src/undo.c", "src/glbl.c"], [("spl1, spl0, signal_handler, handle_hup", "src/signal.c"), ("put_buffer_line, get_line_node", "src/buf.c")],
 note="Exhaustive over every memory access (compiler instrumentation with own run time) of the commands of the list after each history; signals inside the C library arrive at its system calls only." + COMMON, technique=FI)
prop("C22", "Encrypted files hold exactly the buffer and read back exactly",
 "Under a key set by x or -x, every w produces the documented DES-CBC encoding of the addressed bytes, every e, E, r of an encrypted file yields the original text, whatever its length, padding or bytes; a plain file is recognised or reported. A wrong key or a damaged file is reported, never silently accepted as complete. The key garbles nothing else: registers, filters, shell output, scratch files. Each form of key gives the documented bits; a mistyped or malformed key sets none.",
 ["inputs", "histories"], "every short text over five bytes, every length to 70 with six patterns, every padding, single-bit key, truncation and altered byte, every pair and triple of key and file commands",
 "Block boundaries, padding, key expansion and the state of the key between files each depend on exact lengths and orders; tests use one file and one key.",
 ["src/cbc.c", "src/io.c", "src/main.c"], [("expand_des_key, cbc_encode, cbc_decode, get_des_char, put_des_char, flush_des_file, get_des_keyword", "src/cbc.c"), ("read_stream, write_stream", "src/io.c")],
 note="Files are decrypted and made by an independent implementation of the format over libcrypto's DES primitive (which is trusted); keys are supplied through a stand-in for getpass. Exhaustive within the stated texts, keys and sequences to depth 2-4." + COMMON)
prop("C25", "No input makes the editor access memory wrongly, crash or hang",
 "Whatever bytes are given as commands, text, patterns, file names or arguments, at any length, the editor never reads or writes outside its objects or after their release, never crashes and never hangs: malformed input gives an error and leaves the editor usable.",
 ["inputs", "histories"], "every command line of three characters over 75 (four over 20), every pair of 150 commands and triple of 31, every size around powers of two in 16 commands, every two-letter option",
 "The parser, regular expressions, list and buffer code are full of pointer arithmetic over input; errors show only for odd combinations, and only with address checking.",
 ["src/parse.c", "src/exec.c", "src/re.c", "src/sub.c", "src/glbl.c", "src/buf.c", "src/undo.c", "src/main.c"], [("exec_command", "src/exec.c"), ("address_range", "src/parse.c"), ("regular_expression", "src/re.c"), ("substitution_template", "src/sub.c"), ("realloc_buffer", "src/buf.c")],
 note="The current sources are compiled with AddressSanitizer, which monitors every enumerated execution; a time limit of 60 s counts as a hang. Exhaustive within the stated alphabets and depths (thorough: one character deeper). Memory leaks are not errors." + COMMON)
prop("C26", "Text that is UTF-8 or not is matched by characters and never altered",
 "In a UTF-8 locale patterns match and count whole characters, l shows each valid character or its bytes, n and p pass all bytes; bytes that are not UTF-8 (stray, truncated, overlong, surrogate) keep their places and values through every command, and are not matched as part of a character. In the C locale each byte is a character.",
 ["inputs"], "every line of up to 3 (thorough 4) of nine characters and fragments x 27 commands x 2 locales; code points around every boundary; every pair of high bytes",
 "Regular expressions stop at invalid sequences, so the editor splits lines itself; only particular positions of fragments expose mistakes.",
 ["src/utf8.c", "src/re.c", "src/sub.c", "src/page.c"], [("decode_utf8_char, utf8_char_size, utf8_char_display_width", "src/utf8.c"), ("substitute_matching, count_matches", "src/sub.c")],
 note="Reference matcher written from the POSIX rules with characters decoded by an independent decoder. Which odd sequences the regex library's period accepts is taken from the library." + COMMON)
prop("C27", "Every mode of operation keeps its documented behaviour for every command line",
 "Whatever mode is selected (default, -G, POSIXLY_CORRECT, -E, -s, -v, -p, -w, restricted, combinations), every command line has exactly the effect, output, message, status, file name, undo and modified state that mode documents: extensions are refused in the compatible modes with nothing changed, script mode gives no warnings or byte counts, and no undocumented line is a command.",
 ["inputs", "configurations"], "every command line of one and two characters over 80 in 17 modes, of three over 27 in three modes, each line of a catalogue of 200 in four contexts in every mode and every pair of them in three",
 "Modes are tested by conditions strewn over all source files; each combination with each command form is a case of its own.",
 ["src/exec.c", "src/parse.c", "src/main.c", "src/io.c", "src/sub.c", "src/re.c"], [("exec_command, ed_cmd", "src/exec.c"), ("next_address, address_range", "src/parse.c"), ("one_time_init", "src/buf.c"), ("main", "src/main.c")],
 note="Exhaustive within the stated lines and modes (thorough: four characters over 20, three-character lines and pairs in all modes). Lines with shell commands outside the model's table are skipped and counted." + COMMON)
prop("C29", "Exhausted memory loses no text and is never silent",
 "When an allocation fails during any command, the command fails with an error or has its full effect. The editor does not crash; the buffer stays consistent, undo restores it, unsaved text is still guarded by the warning, files are intact, no temporary file is left, and as soon as memory is available again every command works and stores the right text.",
 ["crash_points"], "every allocation of the last command of every session of the list, and of whole sessions, failing once or for the rest of the command",
 "Each allocation failure leaves the command at a different half-done point; no test can make one fail.",
 ["src/buf.c", "src/undo.c", "src/cmds.c", "src/sub.c", "src/glbl.c", "src/main.c"], [("put_buffer_line, append_line_node, remove_line_node, realloc_buffer, one_time_init", "src/buf.c"), ("append_undo_node", "src/undo.c"), ("move_lines, join_lines", "src/cmds.c")],
 note="Exhaustive over malloc, calloc and realloc calls of the editor and the C library (linked statically with the calls wrapped) and compilations of regular expressions, for 10 (thorough 29) histories x 48 commands, 23 commands on long lines and 22 whole sessions. Allocations inside the regular expression library are not failed: its matcher reports them as no match, which no caller can tell apart." + COMMON, technique=FI)
prop("C28", "Size never matters: large files, long lines and big pipes are exact",
 "At every line length, number of lines and amount of data, reading, adding, copying, moving, joining, substituting, filtering, writing and undoing give exactly the bytes specified; data larger than a pipe passes through filters and shell commands whole, in both directions; positions in the buffer file and list stay right whatever the order of reads and writes at scattered lines.",
 ["inputs", "histories"], "every line length to 1100 and count of lines to 260, all around powers of two to 65536 and blocks to 32 KiB, eight parts x seven filters x 32 sizes around pipe capacity, every sequence of three of 25 commands at scattered lines of 120, and two of 4000",
 "Buffer growth, block and pipe boundaries, caches of positions and the switch between reading and writing the scratch file go wrong at particular sizes and orders only.",
 ["src/buf.c", "src/io.c", "src/aux.c", "src/cmds.c", "src/sub.c"], [("put_buffer_line, get_buffer_line, get_line_node, realloc_buffer", "src/buf.c"), ("filter_lines", "src/aux.c"), ("get_stream_line, put_stream_line", "src/io.c"), ("get_extended_line", "src/io.c")],
 note="Exhaustive over the stated sizes and sequences (thorough: lengths to 9000, counts to 1500, powers to 262144, sequences to 5). Files beyond 2 GiB are not covered." + COMMON)
prop("C30", "A file name is taken literally or refused",
 "A file operand, and the argument of a command that names a file, always means the file of exactly that name: whatever characters the name has (blanks, quotes, escapes, pattern, option and command characters, bytes that are not text), only that file, and the backup made of it, is read, created or changed. A name that cannot be taken literally (a leading blank, an embedded newline, a trailing backslash) is refused with an error, and then no file changes and no line of input is lost; no other name is refused. (Operands beginning with ! are shell commands, operands beginning with + addresses, as documented.)",
 ["inputs"], "every name of up to three characters over 13 special characters, every one of two over 36, and longer ones; as operand, in pairs of operands, in place with and without backup, and as argument of E, e, r, w, f, wq",
 "Names reach the commands by being pasted into a command line that is parsed again: a name with one particular character in one particular place edits another file in place, and no test has such names.",
 ["src/main.c", "src/parse.c", "src/exec.c"], [("next_edit, save_edit", "src/main.c"), ("is_literal_name, is_valid_name, file_name, file_glob", "src/parse.c"), ("get_extended_line", "src/io.c")],
 note="Exhaustive over the stated names (thorough: all names of three characters over 36), next to decoy files with every name they might be mistaken for. Names with a directory part are covered by C13 and C20." + COMMON)
prop("C31", "A session may be of any length",
 "Executing commands over and over again - successful ones and ones that fail in any way, macros, shell commands, changes of file, in-place editing of many files - never accumulates open files, processes not waited for or memory, and the thousandth execution has the effect of the first.",
 ["histories", "inputs"], "every one of ~115 commands (40 of them failing in different ways) and every pair of them repeated 18 to 120 times in one session, under a limit of 40 open files; sessions over 3 to 150 files",
 "A leak per command, or a frame left on a stack by a failing macro, shows after hundreds of repetitions; tests run each command once or twice.",
 ["src/io.c", "src/buf.c", "src/aux.c", "src/cmds.c", "src/main.c"], [("read_file, write_file, read_pipe, write_pipe", "src/io.c"), ("init_ed_command, reopen_ed_buffer", "src/buf.c"), ("filter_lines, wait_child, script_from_register, unwind_stack_frame", "src/aux.c")],
 note="Open files, zombies and outstanding blocks of memory are counted inside the process at a comment line of each repetition; a cycle ends by reading a fixed file, so that the state repeats. Output, files and status are compared with the reference model where it supports the commands. Streams and children left by an interrupt are not covered." + COMMON)
prop("C32", "The file being edited is locked, no other is, and a lock is no obstacle",
 "From the time the default file is read or written until another file takes its place or the session ends, another process finds it locked (flock), and no file that is no longer edited stays locked. A lock held by another process changes nothing in what the editor reads, writes, prints or reports when standard input is not a terminal.",
 ["histories", "schedules"], "every pair of 38 and triple (thorough: 4-sequence) of 16 commands that name, read, write or switch files, from four argument lists, with and without the files locked by another process",
 "The lock depends on which stream the editor keeps open, which each naming, reading and writing command may replace; tests do not look at locks.",
 ["src/io.c", "src/buf.c", "src/exec.c"], [("read_file, write_file, get_inode, set_file_lock", "src/io.c"), ("init_ed_command", "src/buf.c"), ("e_cmd, r_cmd, w_cmd, f_cmd", "src/exec.c")],
 note="A second process tries the lock of every file at each comment line; hard and symbolic links and inexistent files included. The warning shown on terminals is not covered." + COMMON)

prop("C33", "A change of the window size disturbs nothing and takes effect",
 "SIGWINCH arriving at any moment leaves the current command, the buffer, the files, the messages and the exit status as without it; no input or output is lost. A page being shown meanwhile is of consecutive lines, no longer than the larger window, with the current line at its end; later pages and listings are those for the new size.",
 ["schedules"], "the signal delivered before every memory access of the editor's code and at every read of its input or of a pipe, for five changes of size",
 "The size is read at several places of a command, and the signal may come between any two of them; tests have no terminal and send no signals.",
 ["src/signal.c", "src/exec.c", "src/page.c"], [("handle_winch, reliable_signal", "src/signal.c"), ("z_cmd, Z_cmd", "src/exec.c"), ("init_frame_buffer, display_lines", "src/page.c")],
 note="Exhaustive over every memory access (compiler instrumentation with own run time) of the last command of each session. The terminal is simulated: isatty and the ioctl that asks for the size are replaced at link time, and reads that wait are interrupted if the handler was installed without SA_RESTART. Half pages ([ and ]) are not covered." + COMMON, technique=FI)

