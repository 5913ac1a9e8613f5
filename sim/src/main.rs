//! Deterministic simulation of markdown-fmt with fault injection.  See ../DESIGN.md.

mod choice;
mod cli;
mod docs;
mod fs;
mod gensim;
mod libsim;
mod mdcheck;
mod oracle;
mod rng;
mod runner;
mod simrt;
mod world;

use std::sync::atomic::{AtomicBool, Ordering};

static QUIET: AtomicBool = AtomicBool::new(false);

pub fn set_quiet(q: bool) {
    QUIET.store(q, Ordering::SeqCst);
}

/// Something is wrong with the check itself: neither "holds" nor "violated".
pub fn harness_error(what: &str) -> ! {
    if !QUIET.load(Ordering::SeqCst) {
        eprintln!("HARNESS ERROR: {what}");
        std::process::exit(2);
    }
    panic!("harness error: {what}");
}

pub fn cli_binary() -> String {
    std::env::var("MDSIM_CLI").unwrap_or_else(|_| format!("{}/.build/cli/debug/markdown-fmt", docs::home()))
}
pub fn shim_path() -> String {
    std::env::var("MDSIM_SHIM").unwrap_or_else(|_| format!("{}/.build/shim.so", docs::home()))
}

pub fn rules(id: &str) -> &'static str {
    match id {
        "C01" => "one case = one seed: a document, its place, 1-3 in-place runs with kills, power losses and errors at chosen system calls. Non-trivial: at least one run was cut short. After every system call the document is read, and every metadata prefix of the journal with four fates of unsynced data is checked as a power-loss image. Distinct: different event logs (who ran, each call, its result, each fault).",
        "C02" => "one case = one seed: an in-place run of a valid, undecodable, missing, unreadable or unformattable document with injected errors. Non-trivial: a fault fired or the document cannot be formatted. Distinct: different event logs.",
        "C03" => "one case = one seed: a run in either mode with short and interrupted calls. Non-trivial: at least one was injected. Distinct: different event logs.",
        "C04" => "one case = one seed: a --stdout run with errors and kills; the whole file system is compared after every call. Non-trivial: a fault fired. Distinct: different event logs.",
        "C05" => "one case = one seed: a --stdout run into a sink that fails after a chosen number of bytes or at a chosen call. Non-trivial: a fault fired. Distinct: different event logs.",
        "C06" => "one case = one seed: a run with a logging filter and a healthy or failing standard error. Non-trivial: something was logged. Distinct: different event logs.",
        "C07" => "one case = one seed: two or three overlapping runs on one or two documents under a chosen interleaving of their system calls. Non-trivial: runs overlapped and control switched between them. Distinct: different interleaved event logs.",
        "C08" => "one case = one seed: one to four disturbed runs and edits, then one undisturbed run. Non-trivial: at least one run was killed, lost power or failed. Distinct: different event logs.",
        "C09" => "one case = one seed: an in-place run among neighbours, links and permissions, with errors and kills; everything else in the file system is compared after every call. Non-trivial: the run changed the file system more than once. Distinct: different event logs.",
        "C10" => "one case = one seed: a run with varied environment, clock, identity, hash seeds, memory layout, working directory and spelling of the arguments. Every case is non-trivial; distinct by event log and environment.",
        "C19" => "one case = one seed: one to three runs in either mode, with errors that stay, dead or full disks, sinks that refuse for good, frozen and jumping clocks, other runs killed or stopped for a while or for good at any call. Non-trivial: a fault fired. Every run that is not stopped has to end within a bound of requests. Distinct: different event logs.",
        "C20" => "one case = one seed: a command line that is refused in one of seven ways, or asks for help, with errors, kills and failing allocations; the whole file system is compared after every call. Every case is non-trivial. Distinct: different event logs.",
        "C21" => "one case = one seed: a --stdout run on standard input, a named pipe or a growing file, whose bytes arrive in pieces, late, with interruptions, and may end in an error. Non-trivial: a fault fired. Distinct: different event logs.",
        "C25" => "one case = one seed: up to three threads of up to five calls each, with panics of callback and subscriber, nested calls, and formatters built and dropped. Non-trivial: always. Whatever the library calls that others in the process or the world can see is caught; the panic hook and tracing's default are looked at whenever host code runs. Distinct: different event logs.",
        "C24" => "one case = one seed: a run in either mode whose unused standard streams are terminals, refuse bytes, end in an error, or hold text. Non-trivial: one of them does. Distinct: different event logs.",
        "C23" => "one case = one seed: the build script with small sets of the repository's own examples, stale output and bystanders, one or two runs with errors, kills, full or dead disks and failing allocations, then one or two undisturbed runs. The generated files are parsed and compared with the examples. Non-trivial: a fault fired or a set is larger than four examples. Distinct: different event logs.",
        _ => libsim_rules(id),
    }
}
fn libsim_rules(id: &str) -> &'static str {
    match id {
        "C11" => "one case = one seed: up to ten (sometimes forty) calls on up to three formatters built and dropped on the way, over one to three documents, with callbacks that return, replace, call, panic and catch, and subscribers that panic. Every call is compared with the same call alone in a fresh process. Non-trivial: more than one call. Distinct: different event logs.",
        "C12" => "one case = one seed: as C11; the invocations of every completed call are compared with the fenced blocks the markdown parser finds in the document and with the columns it finds in the formatted text. Non-trivial: the callback was invoked. Distinct: different event logs.",
        "C13" => "one case = one seed: calls whose callback returns other text; the result is parsed and compared with the result of a callback that changes nothing. Non-trivial: some other text was returned. Distinct: different event logs.",
        "C14" => "one case = one seed: calls whose callbacks call formatters, up to five deep, with panics at any level. Non-trivial: a nested call was made. Distinct: different event logs.",
        "C15" => "one case = one seed: two to four threads with their own formatters under a chosen interleaving. Non-trivial: calls overlapped and control switched between threads. Distinct: different event and switch logs.",
        "C16" => "one case = one seed: two to four threads whose callbacks wait for calls of later threads. Non-trivial: a callback really waited. Distinct: different event and switch logs.",
        "C17" => "one case = one seed: calls under changing subscribers that filter, inspect, format and panic. Non-trivial: an event was observed. Distinct: different event logs.",
        "C18" => "one case = one seed: calls whose callbacks panic at any depth with seven kinds of payload, with and without host code that catches. Non-trivial: a callback panicked. Distinct: different event logs.",
        "C22" => "one case = one seed: a history of up to five calls (with panics of callback and subscriber, nested calls, formatters built and dropped) repeated 24 times with a fresh word in the texts each time. Non-trivial: always. What the library holds after 8, 16 and 24 repetitions is compared, and what callbacks captured has to be dropped with their formatter. Distinct: different event logs.",
        _ => "",
    }
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
    if !runner::is_library(id) {
        vec![
            "metadata operations reach the disk in order (a journalling file system); data reaches it in any order unless synced",
            "the program reaches the operating system only through the C library (unsafe code is forbidden in the crate)",
            "standard streams are open when the program starts",
            "what a document should become is what the library built from the same tree makes of it in a process of its own",
        ]
    } else {
        vec![
            "what a call should return is what the same call returns alone in a process of its own",
            "threads are preempted at the branches of the library's code, at allocations, tracing events, callbacks, locks and yields, not between arbitrary instructions; memory is sequentially consistent",
        ]
    }
}

/// Addresses must not differ from one execution to the next.
fn fix_addresses() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
            use std::os::unix::process::CommandExt;
            let mut c = std::process::Command::new("/proc/self/exe");
            c.args(std::env::args_os().skip(1));
            let _ = c.exec();
        }
    }
}

fn main() {
    fix_addresses();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).cloned().unwrap_or_default();
    let n = |i: usize| s(i).parse::<u64>().unwrap_or_else(|_| harness_error("bad arguments"));
    unsafe {
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
    }
    match s(1).as_str() {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            println!("VERIF_SEED={seed}");
            std::process::exit(runner::check(&s(2), &s(3), seed));
        }
        "worker" => runner::worker(&s(2), n(3), n(4), n(5), n(6), s(7).parse().unwrap_or(10.0)),
        "replay" => std::process::exit(runner::replay(&s(2))),
        "docs" => {
            // what the generator makes, to look at
            let mut ch = choice::Choices::from_seed(n(2));
            for _ in 0..n(3) {
                println!("{}\n~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~", if s(4) == "any" { docs::any(&mut ch, &docs::Cfg::default(), true) } else { docs::generated(&mut ch, &docs::Cfg::default()) });
            }
        }
        "selftest" => runner::selftest(&s(2), n(3), n(4), n(5), n(6)),
        _ => harness_error("usage: mdsim check ID quick|thorough | replay FILE | selftest ID SEED K N COUNT"),
    }
}
