import json, os
CLI = ("Seeded simulation of the shipped executable: every system call, clock, random byte, process id and allocation "
       "failure comes from the simulator, so one seed is one execution. ")
LIB = ("Seeded simulation of the library in a pristine child process: threads are scheduled by the simulator at "
       "branches, allocations, locks, tracing events and callbacks; callbacks, panics and subscribers are chosen by the seed. ")
TRC = ("Assurance is that of a search, not a proof: the violation was looked for in the number of seeds the evidence reports. ")
NC = {
 "C01": CLI + TRC + "After each call the document is read back, and every metadata prefix of the journal with several fates of the unsynced data is judged as a power-loss image. Trusts the simulated file system (ordered metadata, data durable only after fsync) and the library's result for the document as the definition of 'formatted'.",
 "C02": CLI + TRC + "Errors, torn writes, full disks, failing allocations and corrupted input at chosen calls; compares status, standard error, document and directory with a small model.",
 "C03": CLI + TRC + "Short transfers and EINTR in any pattern; bytes compared with the library's result in a process of its own.",
 "C04": CLI + TRC + "The image of the simulated file system is compared after every call of a --stdout run.",
 "C05": CLI + TRC + "The bytes standard output accepts are compared with the formatted document at every instant; standard output fails at chosen bytes. Assumes the standard streams are open at the start.",
 "C06": CLI + TRC + "Runs with generated log filters and failing standard error, compared with the library's result.",
 "C07": CLI + TRC + "Up to four processes interleaved call by call; histories are checked against a reference model of whole-document replacement.",
 "C08": CLI + TRC + "Histories of killed and failing runs, then one undisturbed run whose calls are bounded (progress).",
 "C09": CLI + TRC + "Whole file-system image checked after every call; the simulator models modes, umask, symbolic links and users.",
 "C10": CLI + TRC + "Environment, clock, identity, hash seeds, memory layout, directory and spelling vary by seed; a quarter of the runs exercise the library under threads and subscribers. Address-space randomisation is off in the simulator, so only layout changes the simulator makes are seen.",
 "C11": LIB + TRC + "Each call of a history is compared with the same call made alone in a fresh process of the same build.",
 "C12": LIB + TRC + "Invocations are compared with the fenced blocks the markdown parser itself reports (order, info, code, column, width). Trusts pulldown-cmark's reading of the document.",
 "C13": LIB + TRC + "The result is compared with the one for unchanged code: every byte outside of the code blocks and the element structure. Documents whose own formatting moves code, and texts that close their fence, are skipped and counted.",
 "C14": LIB + TRC + "Nested calls at depth up to six, also of the formatters at work, each compared with the same call alone in a fresh process.",
 "C15": LIB + TRC + "Two to four threads; preemption at allocations, tracing events, callbacks, locks, yields and (in half of the runs) every branch of the library's code, under sequential consistency: effects of weak memory are not simulated.",
 "C16": LIB + TRC + "Callbacks wait for progress of other threads; a set of calls that all wait is a deadlock the scheduler sees at once; progress is bounded in scheduling steps.",
 "C17": LIB + TRC + "Subscribers with generated filters that inspect fields, format texts, or panic; results compared with a fresh process without subscriber.",
 "C19": CLI + TRC + "Runs under errors that stay, dead disks, sinks that refuse for good, odd clocks and stopped or killed other runs; progress is bounded in requests and simulated time. Errors of calls are those the call really has; an endless stream of signals is not among them.",
 "C20": CLI + TRC + "Refused command lines are made from accepted ones in seven ways; file-system image compared after every call.",
 "C21": CLI + TRC + "Pipes, standard input and growing files deliver their bytes in pieces chosen by the seed. In-place runs on pipes are not covered.",
 "C22": LIB + TRC + "The allocator attributes memory to library or host; the same history is repeated 24 times with fresh words and the bytes held after 8, 16 and 24 repetitions are compared, so a cache with a bound of more than some 16 histories would be reported as growth.",
 "C23": "Seeded simulation of the repository's build script as a program on the simulated machine: every system call, clock and allocation failure comes from the simulator. " + TRC + "Generated files are parsed and compared with the examples of the specification files, of which each run has a small set.",
 "C24": CLI + TRC + "Standard streams that are terminals, refuse bytes, end in an error, or hold text; every request on them is seen. Streams that are closed when the program starts are not covered (the runtime opens /dev/null in their place).",
 "C25": LIB + TRC + "Calls of the C library that write, create, remove, start programs, connect, or change environment, directory, umask or signal handling are intercepted while library code runs; the panic hook is compared whenever host code runs. Direct system calls by inline assembly would not be seen.",
 "C18": LIB + TRC + "Payload identity, absence of later invocations and normal completion of enclosing calls are checked for panics at every depth.",
}
NA = {
 "N01": "a pure function of text and options: no schedule, time, I/O, crash or history for the simulator to choose; only input generation would remain, which is another technique",
 "N02": "a relation between input and output text alone; nothing the simulator controls can make it fail or hold",
 "N03": "depends on the input text only (the part that depends on history, callbacks or threads is in C11, C14, C16, C18); no fault or schedule can influence it",
 "N04": "a relation between width option and output text alone (the part that depends on history is in C11 and C12)",
 "N05": "a relation between input and output text alone (what a callback's behaviour adds is in C13)",
 "N06": "a relation between input and output text alone",
 "N07": "a relation between input and output text alone",
 "N08": "a relation between input and output text alone",
 "N09": "a relation between input and output text alone",
 "N10": "a relation between input and output text alone",
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
assert sorted(ids) == sorted(list(NC) + list(NA)), set(ids) ^ set(list(NC) + list(NA))
m = {
 "version": 1,
 "setup_cmd": "bin/build.sh",
 "checks": [{
   "property": i,
   "quick_cmd": f"bin/check.sh {i} quick",
   "thorough_cmd": f"bin/check.sh {i} thorough",
   "evidence_file": f"evidence/{i}.json",
   "technique": "deterministic simulation with fault injection: seeded search over " + (
       "system-call faults, crashes and process interleavings of the real executable" if i <= "C09" or i in ("C19", "C20", "C21", "C23", "C24") else
       "environments, clocks, hash seeds and memory layouts" if i == "C10" else
       "histories, callback behaviours, panics and thread schedules of the real library"),
   "level": "exploration",
   "level_note": NC[i],
 } for i in ids if i in NC],
 "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
 "notes": "No hooks in /repo: the executable is simulated below the C library by an LD_PRELOAD shim, the library through its public API, the global allocator and interposed symbols. Replay a violation with bin/replay.sh FILE. Known findings and repaired defects: known_findings.txt.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("MANIFEST.json", "a").write("\n")
