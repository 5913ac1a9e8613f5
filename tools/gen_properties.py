import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
MAIN="src/main.rs"; FM="src/formatter.rs"; BU="src/builder.rs"
NOCLI="No existing test runs the command-line program at all, let alone with a crash, a failing call or a second process; "
NOLIB="The existing tests make one call per formatter on one thread with a callback that returns normally; "

p("C01","An in-place run never leaves a torn document, whatever instant it dies",
 "While the command-line program rewrites a document in place, and after it is killed or the machine loses power at any instant, the named path holds either the complete original text or the complete formatted text. It is never missing, empty, truncated or a mixture of the two, also when only data flushed to the disk survives.",
 ["crash_points","fault_sequences","inputs","configurations"],
 "every instant of every in-place run (before and after each operating-system call, and inside each write), every subset of unsynced writes a power loss may drop, with or without I/O faults before it, every document and option set",
 NOCLI+"the guarantee is over every crash point and every loss of unsynced data.",
 [MAIN],[("in-place output","src/main.rs output_result"),("read whole document and format before any output","src/main.rs main")],
 ["bytes readable at the document path after each system call of the program","durable image of the simulated disk after power loss"])
p("C02","A failed in-place run leaves the document alone and exits non-zero",
 "If an in-place run cannot read the document, cannot decode it as UTF-8, cannot format it, cannot allocate memory or cannot store the result (also because its user may not write to the document), it ends with a non-zero status and some message on standard error (best effort), the document still holds its original bytes, and no extra file is left behind by a run that ended by itself. An in-place run exits 0 only when the path holds exactly the formatted document.",
 ["fault_sequences","inputs","configurations"],
 "every sequence of failing calls (open, stat, read, write, fsync, rename, chmod, close..., full disk, quota, read-only, descriptor limits, failed allocations), every document including invalid UTF-8 and documents torn or corrupted while being read, every option set",
 NOCLI+"the guarantee is over every failing call at every position.",
 [MAIN],[("error propagation to the exit status","src/main.rs main"),("in-place output","src/main.rs output_result")],
 ["exit status","bytes at the document path","directory listing after the run","standard error"])
p("C03","Short and interrupted system calls do not change what a run does",
 "Reads and writes that transfer only part of the data, and calls interrupted by signals, in any pattern, are invisible: the run exits 0 and the document (in place) or standard output (--stdout) receives exactly the same bytes as in a run without them.",
 ["fault_sequences","inputs","configurations"],
 "every pattern of short reads, short writes and EINTR on every call of a run, in both output modes, every document and option set",
 NOCLI+"partial transfers depend on the kernel, the file system and signals, and never occur on demand in a test.",
 [MAIN],[("read the whole input","src/main.rs main: fs::read_to_string"),("write the whole output","src/main.rs output_result")],
 ["exit status","bytes at the document path","bytes accepted by standard output"])
p("C04","--stdout never modifies the file system",
 "A run with --stdout creates, changes, renames or removes nothing in the file system: document, permissions, and directory are the same after every one of its operating-system calls, whether the run succeeds, fails or is killed.",
 ["fault_sequences","crash_points","inputs","configurations"],
 "every --stdout run, every fault sequence and crash point, every document, option set and flag order",
 NOCLI+"the promise is over every failure path, not just the normal one.",
 [MAIN],[("choice between standard output and overwriting","src/main.rs output_result"),("--stdout flag","src/main.rs Cli")],
 ["file-system image after each system call of the program"])
p("C05","--stdout delivers the whole formatted document or exits non-zero",
 "With --stdout the bytes standard output accepts are always a prefix of the formatted document, followed by nothing else. The program exits 0 only if standard output accepted the complete formatted document: a closed pipe, a full device or any other write error yields a non-zero exit status.",
 ["fault_sequences","inputs","configurations"],
 "every sequence of failures, short writes and interruptions on standard output, every document (ending in a newline or not, of any size) and option set",
 NOCLI+"write errors on standard output are buffered and position-dependent.",
 [MAIN],[("standard output","src/main.rs output_result"),("error propagation","src/main.rs main")],
 ["bytes accepted by standard output","exit status"])
p("C06","Logging never changes the result of a run",
 "For every value of the logging environment variable, including invalid filters, and whether or not standard error accepts the log, a run has the same effect as with logging off: with --stdout the bytes on standard output are exactly the formatted document, and in place the document ends with exactly the formatted text. If a failing standard error makes the program give up, it exits non-zero and the document is still the original or the formatted text.",
 ["configurations","fault_sequences","inputs"],
 "every log filter, both output modes, every failure pattern of standard error, every document and option set",
 NOCLI+"logging is off in all tests, so code that runs only when a log event is enabled, or that writes to the wrong stream, is never exercised.",
 [MAIN,FM,"src/links.rs","src/adapters/loose_list.rs"],[("tracing subscriber set-up","src/main.rs main"),("trace and debug events","src/formatter.rs, src/links.rs, src/adapters/loose_list.rs")],
 ["bytes accepted by standard output and standard error","bytes at the document path","exit status"])
p("C07","Concurrent runs on the same files never lose or mix documents",
 "When several runs of the program, in place or --stdout, with the same or different options, work on the same document or on neighbours in one directory at the same time, and an editor may replace the document in one step in between, every document holds at every instant a complete text: the original, one the editor saved, or the result of some sequence of the requested formattings of such a text. Every --stdout run prints the formatting of such a complete text. A run that exits 0 has had its complete result, of a text the document held during the run, at the document path.",
 ["schedules","crash_points","inputs","configurations"],
 "every interleaving of the operating-system calls of up to three runs and the saves of an editor, with equal or distinct process ids, some of them killed midway or stopped for a while",
 NOCLI+"there is no test with two processes, and interleavings cannot be chosen in an ordinary test.",
 [MAIN],[("in-place output","src/main.rs output_result"),("read whole document","src/main.rs main")],
 ["bytes at the document paths after each system call of any process","bytes accepted by standard output of each run"])
p("C08","After crashes and failures, one undisturbed run finishes the job",
 "After any history of in-place runs that were killed, lost power or failed, a run without faults exits 0 after a bounded number of operating-system calls and leaves the document holding exactly the formatting of the text it found; files left over by the earlier runs never block it and are never taken for the document.",
 ["histories","crash_points","fault_sequences","inputs"],
 "every history of up to five disturbed runs (crash point, power-loss image, failing calls, equal process ids) followed by an undisturbed run",
 NOCLI+"recovery depends on what earlier interrupted runs left behind.",
 [MAIN],[("in-place output","src/main.rs output_result")],
 ["exit status, number of system calls and bytes at the document path of the last run"])
p("C09","A run touches only the document it was given",
 "An in-place run changes nothing but the content of the named document: other files keep their bytes, a symbolic link to the document stays a symbolic link to it, the document keeps its permission bits (and its owner, if root formats it), and its text is at no instant readable through a file with wider permission bits than the document had. This holds for absolute and relative paths, also when calls fail or the run is killed.",
 ["fault_sequences","crash_points","configurations","inputs"],
 "every fault sequence and crash point, directory layouts with neighbours and chains of symbolic links, permission modes, umasks, and path spellings",
 NOCLI+"it is about the file-system state around the document on every failure path.",
 [MAIN],[("in-place output","src/main.rs output_result")],
 ["file-system image (contents, modes, link targets, names) after each system call"])
p("C10","The output depends only on the text and the options",
 "For a given document text and options the program and the library produce the same bytes in every execution: hash seeds, process id, clock readings and jumps, number of processors, environment variables, working directory, name of the executable, spelling of the document path, order of flags, thread, and memory layout have no influence.",
 ["configurations","schedules","inputs"],
 "every assignment of the sources of nondeterminism an execution can read (random bytes, clock, pid, environment, paths), every document and option set",
 "The existing tests run in one environment and compare each output once with a stored text; a dependence that shows only under some seeds, times or environments passes most of the time.",
 [FM,MAIN,BU,"src/links.rs","src/header.rs"],[("formatting is a function of input and configuration","src/formatter.rs MarkdownFormatter::format")],
 ["returned string of the library","bytes accepted by standard output","bytes at the document path"])
p("C11","A formatter's result does not depend on its history",
 "What a formatter returns for a text depends only on that text and on how the formatter was built, not on what it, or any other formatter in the process, was used for before. This includes earlier calls that ended in a panic of the host's code-block callback or of any other host code at an arbitrary point, at any nesting depth.",
 ["histories","fault_sequences","inputs","configurations"],
 "every history of up to a dozen calls on several formatters with different options, each call normal, nested, or ended by a panic in host code at a chosen point, followed by probing calls compared with a fresh process",
 NOLIB+"state that survives a call, above all one that was interrupted, is never observed.",
 [FM,"src/config.rs","src/paragraph.rs"],[("temporary change of the configured width around a code block and its restoration","src/formatter.rs FormatState::format_code_buffer"),("shared configuration cell","src/formatter.rs MarkdownFormatter::{get_config,set_config}")],
 ["returned strings compared with a fresh process"],[("max width","configured width, temporarily lowered while a code block is formatted","src/formatter.rs MarkdownFormatter.config")])
p("C12","The code-block callback sees every fenced block once, in order, as written",
 "During a format call that completes, the host's code-block callback is called exactly once for each fenced code block whose info string does not contain `markdown`, in document order, including blocks inside nested `markdown` blocks, and never for anything else. Each call gets the block's info string, its code without the surrounding indentation and quote markers, the column at which the block stands in the formatted snippet around it, and the width configured for that snippet (the outer width reduced by the columns of the enclosing `markdown` blocks, or none). What the callback returned, or did during earlier calls, does not change which later calls are made.",
 ["inputs","histories","configurations","fault_sequences"],
 "every document of nested lists, block quotes, footnote definitions and fenced blocks, every width, every behaviour of the callback (identity, arbitrary text, nothing, re-entrant calls, a panic in an earlier format call)",
 NOLIB+"one nesting example is checked; delivery must hold for every document and callback history.",
 [FM,BU],[("calling the callback","src/formatter.rs FormatState::format_code_buffer"),("context passed to it","src/builder.rs CodeBlockContext"),("indentation stack","src/formatter.rs FormatState.indentation, src/footnote.rs")],
 ["sequence of callback invocations with arguments"])
p("C13","Whatever the callback returns stays inside its code block",
 "If the callback returns text whose lines contain no closing fence and complete no metadata block begun earlier in the document (any lines separated by \\n, possibly none), the formatted document has that text, up to blank lines around it, blanks at its end and blanks on otherwise empty lines, as the content of that code block in place of the original code. Every other part of the document is the same as if the callback had returned the code unchanged, and the document stays the same markdown structure.",
 ["fault_sequences","inputs","configurations"],
 "every document of nested lists, block quotes, footnote definitions and fenced blocks, every sequence of callback results that look like markdown, are empty, very long, or blank",
 NOLIB+"the only callbacks in tests return the code, or its upper-case form.",
 [FM],[("writing a code block with the indentation of its containers","src/formatter.rs FormatState::{write_code_block_buffer,join_with_indentation}")],
 ["returned string, parsed again as markdown"])
p("C14","The callback may call formatters, including the one that called it",
 "While it runs, the callback may call any formatter, including the one it was called by, to any depth: the inner call completes without panicking or deadlocking and returns what that formatter returns for the text on its own, with its width lowered by the columns of the enclosing code blocks if it is in the middle of formatting them. The outer call and all later calls are unaffected.",
 ["histories","inputs","configurations"],
 "every nesting of calls up to depth four over formatters with different widths, with panics injected at any of the levels",
 NOLIB+"re-entrance with the same formatter is not tested.",
 [FM],[("configuration cell borrowed only briefly","src/formatter.rs MarkdownFormatter::{get_config,set_config}"),("nested width","src/formatter.rs FormatState::format_code_buffer")],
 ["returned strings of inner, outer and later calls compared with a model"])
p("C15","Formatting on several threads gives the same results as on one",
 "When several threads format texts at the same time, each with its own formatters and options, every call returns what it would return in a process of its own, for every interleaving of the threads.",
 ["schedules","inputs","configurations"],
 "every interleaving, at every branch of the library, allocation, lock operation, log event and callback, of two to four threads making up to four calls each, including the first calls in the process and calls ended by panics",
 NOLIB+"process-wide state that is initialised or used by several threads is only wrong under particular interleavings.",
 [FM,"src/paragraph.rs",BU],[("process-wide lazily initialised pattern","src/paragraph.rs could_be_table"),("no shared mutable state between formatters","src/formatter.rs MarkdownFormatter")],
 ["returned strings per thread compared with a process of their own"])
p("C16","A call that waits in its callback holds up nobody else",
 "While a format call is inside its host callback, however long that takes and whatever it waits for, format calls of other formatters on other threads and nested calls on the same thread proceed to completion. No set of such calls ever waits for each other.",
 ["schedules","inputs","configurations"],
 "every interleaving of two to four threads whose callbacks wait for other threads' format calls to finish in an order without cycles",
 NOLIB+"blocking shows only when calls overlap, and a test would merely hang.",
 [FM,"src/paragraph.rs"],[("no lock held around the callback","src/formatter.rs FormatState::format_code_buffer")],
 ["completion of all calls within a bounded number of scheduling steps"])
p("C17","Observing the formatter through tracing does not change it",
 "The text returned by a format call and the callback invocations it makes are the same under every tracing subscriber: none, any level or target filter, one that inspects every field, and one that itself formats texts or waits for calls on other threads, be it set for a thread or for the process. A subscriber that panics at any event ends that call only; later calls on the same formatter return the same results as before.",
 ["configurations","fault_sequences","inputs","histories"],
 "every subscriber configuration, changing between calls, and every event at which it may panic, every document and option set",
 NOLIB+"no test installs a subscriber, so arguments of log events are never evaluated.",
 [FM,"src/links.rs","src/adapters/loose_list.rs"],[("trace and debug events","src/formatter.rs, src/links.rs, src/adapters/loose_list.rs")],
 ["returned strings and callback invocations with and without a subscriber"])
p("C18","A panic in the callback reaches the caller of format unchanged",
 "If the callback panics, the format call it was made from ends in that panic with the same payload; it never returns a result, never aborts the process, and makes no further callback invocations. Enclosing format calls end the same way unless host code between them catches the panic, in which case they complete normally.",
 ["fault_sequences","inputs","histories"],
 "every document, every callback invocation at which to panic, any kind of payload, at every depth of nested and re-entrant calls, with and without host code catching it in between",
 NOLIB+"no test has a panicking callback.",
 [FM],[("callback invocation","src/formatter.rs FormatState::format_code_buffer"),("recursion into nested markdown","src/formatter.rs FormatState::format_code_buffer")],
 ["payload seen by the caller of format","number of callback invocations after the panic"])
p("C19","Every run ends, whatever fails for good and whoever stops",
 "Every run of the program, in either mode, ends by itself after a bounded number of operating-system calls and a bounded time: when calls keep failing with the same error for ever, when standard output or standard error accepts nothing any more, when the disk is full or gone, when the clock stands still or jumps, and when other runs on the same document are killed, or are stopped at any point and never go on. It never waits for another run.",
 ["fault_sequences","schedules","crash_points","inputs","configurations"],
 "every point at which a call starts failing for good with any of its errors, every point at which other runs are killed or stopped for a while or for ever, every interleaving of up to three runs, every clock, both modes, every document and option set",
 NOCLI+"a run that waits or retries for ever shows only when something stays broken, and would merely hang a test.",
 [MAIN],[("choice of a name for the temporary file","src/main.rs create_tmp_file"),("output","src/main.rs output_result, replace_file"),("no lock between runs","src/main.rs")],
 ["end of each run","number of system calls of each run","simulated time"])
p("C20","A refused command line changes nothing and exits non-zero",
 "A command line that the program does not accept (an unknown option, no document or two of them, a width that is missing or no whole number, an option given twice, a value for an option that takes none) makes the run end with a non-zero status, with a message on standard error (best effort) and nothing on standard output. At no instant of such a run, or of one that asks for help or the version, does anything in the file system change, whatever else the command line asks for, whatever the environment holds and whatever calls fail.",
 ["configurations","fault_sequences","crash_points","inputs"],
 "every way of making a command line unacceptable and every position in it, in place and --stdout, every environment, every fault sequence and crash point",
 NOCLI+"the promise is about everything that happens before the command line is refused, under every failure.",
 [MAIN],[("command line","src/main.rs Cli"),("order of parsing, reading and writing","src/main.rs main")],
 ["exit status","bytes accepted by standard output and standard error","file-system image after each system call"])
p("C21","A document that arrives through a pipe is formatted as a whole",
 "With --stdout the document may be standard input named by its device path, a named pipe, or a file that grows while it is read. However the bytes arrive (in pieces of any size, split inside a character, after any delay, with interruptions) the output is the formatting of everything up to the end of the stream, which for a growing file is what it held at some instant of the run. If the stream ends in a read error or is not UTF-8, the run prints nothing and exits non-zero.",
 ["schedules","fault_sequences","inputs","configurations"],
 "every way of cutting a stream into reads, every delay, interruption and read error at every position, every schedule of appends, every document and option set",
 NOCLI+"files in tests arrive in one piece, with their size known beforehand.",
 [MAIN],[("read the whole input","src/main.rs main: fs::read_to_string"),("standard output","src/main.rs output_result")],
 ["bytes accepted by standard output","exit status"])
p("C24","A run needs no standard stream but the one it prints to",
 "An in-place run prints nothing on standard output, and neither mode reads from standard input unless that is the document. So, with logging off, it makes no difference whether these streams are terminals, accept nothing (full, closed at the other end, in error), hold something to read, or fail when read, nor whether standard error accepts anything: a run that would succeed with healthy streams exits 0 with exactly the same effect, and whatever waits on standard input is still there afterwards.",
 ["fault_sequences","configurations","inputs"],
 "every combination of terminals, refusing, failing and filled streams, both output modes, every document and option set",
 NOCLI+"a program that prints a note, asks a question or drains standard input behaves well wherever tests run it, and fails in scripts, pipelines and services.",
 [MAIN],[("what is printed, and where","src/main.rs output_result, main")],
 ["requests on standard input, output and error","exit status","bytes at the document path"])
p("C22","Formatters keep nothing of what they were given",
 "However many texts a process formats, the memory the library holds between calls does not grow, and what a code-block callback has captured is dropped as soon as the formatter or builder that owns it is dropped, another callback takes its place, or the function that was given the builder returns or panics, and never during a call. This includes calls that end in a panic of the callback or other host code, nested calls, and calls that are observed through tracing.",
 ["histories","fault_sequences","inputs","configurations"],
 "every history of calls on standing and short-lived formatters, each normal, nested or ended by a panic, repeated for ever with fresh texts",
 NOLIB+"a leak is invisible in the result of any call and needs many calls, or a panic at the right point, to show.",
 [FM,BU,"src/lib.rs","src/links.rs","src/paragraph.rs"],[("ownership of the callback","src/builder.rs FormatBuilder, src/formatter.rs MarkdownFormatter"),("state of a call","src/formatter.rs FormatState")],
 ["bytes allocated by library code and not freed","drop of values captured by callbacks"])
p("C25","Formatting leaves the process it runs in alone",
 "Building, using and dropping formatters is invisible to the rest of the host process, also when calls end in panics, are nested, or run on several threads at once: the library writes to no file, terminal or standard stream, creates, removes or renames nothing, starts no program, opens no connection, leaves no thread behind, and does not change the environment, the working directory, the umask, signal handlers, the panic hook or tracing's default subscriber. Whenever host code runs (callback, subscriber, caller), the panic hook is the one that the host has set.",
 ["schedules","fault_sequences","histories","inputs"],
 "every document, every history of calls, every place at which a callback or subscriber panics, every interleaving of threads",
 NOLIB+"a message on standard error, a swapped panic hook or a thread that goes on does not show in the text that tests compare.",
 [FM,BU,"src/lib.rs","src/links.rs","src/list.rs","src/table.rs"],[("call of the callback","src/formatter.rs FormatState::format_code_buffer"),("formatting without input or output","src/lib.rs rewrite_markdown_with_builder")],
 ["calls of the C library made by library code","panic hook and default subscriber whenever host code runs","threads left when no call is in progress"])
p("C23","The generated spec tests are complete or the generator fails",
 "When the generator of the spec tests (the build script with the gen-tests feature) succeeds, every generated file contains exactly one test per example of its specification file, in order, with the example's number, texts, macro and ignore flag; a run that was cut short or met an error anywhere does not report success with incomplete files, changes nothing but the generated files, and the next undisturbed run repairs whatever it left. Running it again changes nothing.",
 ["fault_sequences","crash_points","configurations"],
 "every place at which reading the specifications or writing the tests can fail or be cut short, for all sets of examples and leftovers",
 "The generator is itself part of the test set-up and no test runs it; a truncated file of tests compiles and passes.",
 ["build.rs"],[("test generation","build.rs generate_tests_markdown_tests, write_test_cases")],
 ["generated files","exit status of the build script"])
# pure-input properties: stated, not claimed
T="an existing fixture list samples it; the guarantee is over every input"
p("N01","Formatting is idempotent","Formatting an already formatted document with the same options returns it unchanged.",["inputs","configurations"],"every document and option set","The spec examples and fixtures check it on about 1400 documents; "+T+".",[FM,"src/escape.rs","src/paragraph.rs","src/links.rs"],[("escaping and normalisation","src/escape.rs, src/paragraph.rs")],["format(format(x)) == format(x)"])
p("N02","Formatting preserves the meaning of the document","The formatted document parses to the same sequence of markdown elements as the original, up to insignificant white space.",["inputs","configurations"],"every document and option set","The spec examples check it on about 1400 documents; "+T+".",[FM,"src/escape.rs","src/list.rs","src/header.rs","src/table.rs"],[("event rewriting","src/formatter.rs FormatState::format")],["events of input and output"])
p("N03","Formatting never panics and always terminates","For every string, format returns a string; it does not panic, overflow the stack or loop.",["inputs","configurations"],"every string and option set","Fuzzing upstream tolerates panics; "+T+".",[FM,"src/links.rs","src/list.rs"],[("parser-driven rewriting","src/formatter.rs")],["return of format"])
p("N04","Wrapped paragraphs respect the configured width","With a maximum width, no line of a paragraph is wider than the width unless it consists of a single unbreakable word behind its indentation.",["inputs","configurations"],"every document and width","Two fixtures; "+T+".",["src/paragraph.rs",FM],[("text wrapping","src/paragraph.rs Paragraph::into_buffer")],["width of output lines"])
p("N05","Code is preserved verbatim","Without a callback the content of every non-markdown code block and code span in the output equals that of the input.",["inputs"],"every document","A few fixtures; "+T+".",[FM],[("code block writing","src/formatter.rs")],["code events of input and output"])
p("N06","Link targets, titles and reference definitions survive","Every link and image in the output has the destination and title it had in the input, and every reference definition is kept.",["inputs"],"every document","Fixtures and spec examples; "+T+".",["src/links.rs",FM],[("definition recovery","src/links.rs parse_link_reference_definitions")],["link events of input and output"])
p("N07","Tables keep their cells and line up","Every table keeps its cells and alignments, and the columns of its output lines have equal display width.",["inputs"],"every table","Fixtures; "+T+".",["src/table.rs"],[("column width bookkeeping","src/table.rs TableState")],["cells and widths of output tables"])
p("N08","Lists keep markers, numbering and nesting","Every list keeps its kind, item numbers, zero padding, task states and nesting depth.",["inputs"],"every list","Fixtures and spec examples; "+T+".",["src/list.rs",FM,"src/adapters/loose_list.rs"],[("marker parsing","src/list.rs ListMarker")],["list events of input and output"])
p("N09","Text that looks like markup stays text","Characters that were plain text in the input are escaped where the output would otherwise turn them into markup.",["inputs"],"every document","Fixtures; "+T+".",["src/escape.rs","src/paragraph.rs","src/header.rs"],[("escaping","src/escape.rs needs_escape")],["text events of input and output"])
p("N10","Line ends and end of file are normalised","The output uses only \\n as line end outside literal content, and ends in a newline exactly when the input had one after its last visible character.",["inputs"],"every document","A few edge cases; "+T+".",[FM,"src/utils.rs"],[("final newline handling","src/formatter.rs FormatState::format")],["last bytes of the output"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
