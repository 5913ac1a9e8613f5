//! Scenarios and checks for the library (C11 to C18, C22, and the library's part of C10).
//!
//! Every run happens in a forked process that has never called the library.  What a call should
//! return is asked of yet another such process, in which the same call is made alone, with a
//! callback that repeats what the callback of the run returned.

use crate::choice::{Choices, Kind, Recorded};
use crate::docs;
use crate::mdcheck;
use crate::oracle::{build, in_child, Opts};
use crate::rng::{hash, Fnv};
use crate::runner::Outcome;
use crate::simrt::{self, Mode};
use crate::world::Violation;
use markdown_fmt::{FormatBuilder, MarkdownFormatter};
use serde_json::{json, Value};
use std::any::Any;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

// ------------------------------------------------------------------ the parent's side

const TRACE_CAP: usize = 1 << 18;

pub struct Lib {
    cache: HashMap<Vec<u8>, Vec<u8>>,
    choices: *mut u32,
    trace: *mut u8,
}

fn shared(len: usize) -> *mut u8 {
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
    };
    if p == libc::MAP_FAILED {
        crate::harness_error("mmap failed");
    }
    p.cast()
}

unsafe fn send(fd: i32, tag: u8, b: &[u8]) -> bool {
    let mut m = Vec::with_capacity(b.len() + 9);
    m.push(tag);
    m.extend_from_slice(&(b.len() as u64).to_le_bytes());
    m.extend_from_slice(b);
    let mut p: &[u8] = &m;
    while !p.is_empty() {
        let r = libc::send(fd, p.as_ptr().cast(), p.len(), libc::MSG_NOSIGNAL);
        if r < 0 && *libc::__errno_location() == libc::EINTR {
            continue;
        }
        if r <= 0 {
            return false;
        }
        p = &p[r as usize..];
    }
    true
}

enum Got {
    Message(u8, Vec<u8>),
    Closed,
    Late,
}

unsafe fn receive(fd: i32, timeout_ms: i32) -> Got {
    let mut head = [0u8; 9];
    let mut body: Vec<u8> = vec![];
    let mut need = 9usize;
    let mut have = 0usize;
    let mut in_head = true;
    loop {
        if timeout_ms > 0 {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, timeout_ms);
            if r == 0 {
                return Got::Late;
            }
            if r < 0 {
                continue;
            }
        }
        let dst = if in_head { head.as_mut_ptr().add(have) } else { body.as_mut_ptr().add(have) };
        let r = libc::recv(fd, dst.cast(), need - have, 0);
        if r < 0 && *libc::__errno_location() == libc::EINTR {
            continue;
        }
        if r <= 0 {
            return Got::Closed;
        }
        have += r as usize;
        if have == need {
            if !in_head {
                return Got::Message(head[0], body);
            }
            let n = u64::from_le_bytes(head[1..9].try_into().unwrap_or([0; 8])) as usize;
            if n == 0 {
                return Got::Message(head[0], body);
            }
            in_head = false;
            body = vec![0; n];
            need = n;
            have = 0;
        }
    }
}

/// The branches of the library that the runs of this process have reached.
pub fn branches() -> Vec<u32> {
    let Some(m) = simrt::COVERED.get() else { return vec![] };
    (1..m.1).filter(|g| unsafe { *(m.0 as *const u8).add(*g) } != 0).map(|g| g as u32).collect()
}

impl Lib {
    pub fn new() -> Self {
        let n = simrt::BRANCHES.load(Ordering::Relaxed) as usize + 1;
        let _ = simrt::COVERED.set((shared(n) as usize, n));
        Lib {
            cache: HashMap::new(),
            choices: shared(Choices::shared_len()).cast(),
            trace: shared(TRACE_CAP + 8),
        }
    }

    pub fn run(&mut self, id: &str, ch: &mut Choices) -> (Outcome, Recorded) {
        docs::corpus();
        unsafe {
            for k in 0..3 {
                *self.choices.add(k * (Choices::shared_len() / 12)) = 0;
            }
            *self.trace.cast::<u64>() = 0;
            let mut fds = [0i32; 2];
            if libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, fds.as_mut_ptr()) < 0 {
                crate::harness_error("socketpair failed");
            }
            let parent = libc::getpid();
            let pid = libc::fork();
            if pid < 0 {
                crate::harness_error("fork failed");
            }
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if libc::getppid() != parent {
                    libc::_exit(9);
                }
                libc::close(fds[0]);
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                libc::dup2(null, 1);
                libc::dup2(null, 2);
                limit(libc::RLIMIT_CPU, 20);
                limit(libc::RLIMIT_CORE, 0);
                limit(libc::RLIMIT_AS, 8 << 30);
                let c = std::mem::replace(ch, Choices::from_recorded(&[vec![], vec![], vec![]]));
                child(id, c, fds[1], self.choices, self.trace);
            }
            libc::close(fds[1]);
            let mut done: Option<Outcome> = None;
            let mut late = false;
            let mut harness = String::new();
            loop {
                match receive(fds[0], 90_000) {
                    Got::Message(b'Q', q) => {
                        let a = self.answer(&q);
                        if !send(fds[0], b'A', &a) {
                            break;
                        }
                    }
                    Got::Message(b'R', r) => {
                        done = Some(read_outcome(&r));
                        break;
                    }
                    Got::Message(b'H', m) => {
                        harness = String::from_utf8_lossy(&m).into_owned();
                        break;
                    }
                    Got::Message(..) | Got::Closed => break,
                    Got::Late => {
                        late = true;
                        break;
                    }
                }
            }
            if done.is_none() && late {
                libc::kill(pid, libc::SIGKILL);
            }
            libc::close(fds[0]);
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            if !harness.is_empty() {
                crate::harness_error(&harness);
            }
            let rec = Choices::read_shared(self.choices);
            let n = (*self.trace.cast::<u64>() as usize).min(TRACE_CAP);
            let text = String::from_utf8_lossy(std::slice::from_raw_parts(self.trace.add(8), n)).into_owned();
            let mut o = match done {
                Some(o) => o,
                None => {
                    let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
                    if sig == libc::SIGKILL && !late {
                        crate::harness_error("a run was killed, perhaps for lack of memory");
                    }
                    let (class, what) = if late {
                        ("hang", "the run made no progress and was not waiting for anything the simulator controls".to_string())
                    } else if sig == libc::SIGXCPU {
                        ("no-progress", "the run used up its processor time".into())
                    } else if sig == libc::SIGABRT {
                        ("aborted", "the process aborted".into())
                    } else {
                        ("crashed", format!("the process died with signal {sig}, wait status {st}"))
                    };
                    let mut f = Fnv::default();
                    f.add(text.as_bytes());
                    Outcome {
                        violation: Some(Violation { class: class.into(), detail: what }),
                        signature: f.0,
                        nontrivial: true,
                        ..Outcome::default()
                    }
                }
            };
            o.trace = text.lines().map(str::to_string).collect();
            (o, rec)
        }
    }

    /// Make one call in a process of its own.
    fn answer(&mut self, q: &[u8]) -> Vec<u8> {
        if let Some(a) = self.cache.get(q) {
            return a.clone();
        }
        simrt::s().rand = hash(q);
        let r = in_child(8, &mut |out| {
            let q = q.to_vec();
            let h = std::thread::Builder::new().stack_size(48 << 20).spawn(move || alone(&q));
            if let Ok(h) = h {
                out.extend(h.join().unwrap_or_default());
            }
        });
        let a = match r {
            Ok(v) if !v.is_empty() => v,
            _ => json!({"i": [], "r": "died"}).to_string().into_bytes(),
        };
        if self.cache.len() > 20_000 {
            self.cache.clear();
        }
        self.cache.insert(q.to_vec(), a.clone());
        a
    }
}

unsafe fn limit(what: libc::__rlimit_resource_t, n: u64) {
    let l = libc::rlimit { rlim_cur: n, rlim_max: n + 1 };
    libc::setrlimit(what, &l);
}

fn read_outcome(r: &[u8]) -> Outcome {
    let v: Value = serde_json::from_slice(r).unwrap_or_else(|e| crate::harness_error(&format!("bad report: {e}")));
    let map = |k: &str| -> BTreeMap<String, u64> {
        v[k].as_object().map(|o| o.iter().map(|(a, b)| (a.clone(), b.as_u64().unwrap_or(0))).collect()).unwrap_or_default()
    };
    Outcome {
        violation: v["class"].as_str().map(|c| Violation { class: c.into(), detail: v["detail"].as_str().unwrap_or("").into() }),
        trace: vec![],
        fired: map("fired"),
        probes: map("probes"),
        signature: v["sig"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0),
        nontrivial: v["nontrivial"].as_bool().unwrap_or(false),
        sim_ns: v["ns"].as_u64().unwrap_or(0),
        switches: v["switches"].as_u64().unwrap_or(0),
    }
}

struct ReferencePanic;

/// The call of the request, made in a process that does nothing else.
fn alone(q: &[u8]) -> Vec<u8> {
    std::panic::set_hook(Box::new(|_| {}));
    let v: Value = serde_json::from_slice(q).unwrap_or(Value::Null);
    let doc = v["d"].as_str().unwrap_or("").to_string();
    let o = Opts { max_width: v["w"].as_u64().map(|x| x as usize), reflow: v["r"].as_bool().unwrap_or(false) };
    let script: Vec<Value> = v["s"].as_array().cloned().unwrap_or_default();
    let invs: std::rc::Rc<std::cell::RefCell<Vec<Value>>> = Default::default();
    let i2 = invs.clone();
    let mut b = build(&o);
    b.code_block_formatter(move |ctx, info, code| {
        let mut l = i2.borrow_mut();
        let k = l.len();
        l.push(json!([info, code, ctx.indentation(), ctx.max_width()]));
        match script.get(k) {
            Some(Value::String(s)) => s.clone(),
            Some(Value::Bool(true)) => panic_any(ReferencePanic),
            _ => code,
        }
    });
    let f = b.build();
    let r = match catch_unwind(AssertUnwindSafe(|| f.format(&doc))) {
        Ok(Ok(s)) => json!({"ok": s}),
        Ok(Err(_)) => json!("err"),
        Err(p) if p.is::<ReferencePanic>() => json!("host"),
        Err(_) => json!("lib"),
    };
    let i = invs.borrow().clone();
    json!({"i": i, "r": r}).to_string().into_bytes()
}

// ------------------------------------------------------------------ the run's side

#[derive(Clone, Copy, Debug, Default)]
struct Profile {
    threads: (u32, u32),
    formatters: u32,
    calls: u32,
    /// weights of what a callback does: identity, replace, nested call, nested call whose panic is
    /// caught, panic, wait or yield, panic with a format call while unwinding
    act: [u32; 7],
    /// out of 8 top-level calls, how many have a subscriber
    subscribers: u32,
    sub_panics: bool,
    /// out of 8 documents, how many come from the structured generator
    generated: u32,
    mutations: bool,
    max_depth: usize,
}

fn profile(id: &str) -> Profile {
    let base = Profile {
        threads: (1, 1),
        formatters: 3,
        calls: 8,
        act: [6, 3, 2, 1, 2, 0, 1],
        subscribers: 0,
        sub_panics: false,
        generated: 5,
        mutations: true,
        max_depth: 3,
    };
    match id {
        "C10" => Profile { formatters: 2, calls: 2, act: [6, 1, 0, 0, 0, 0, 0], subscribers: 1, ..base },
        "C11" => Profile { calls: 10, subscribers: 1, sub_panics: true, ..base },
        "C12" => Profile { act: [6, 4, 1, 1, 1, 0, 1], calls: 6, generated: 7, ..base },
        "C13" => Profile { act: [3, 12, 0, 0, 0, 0, 0], calls: 4, generated: 7, mutations: false, ..base },
        "C14" => Profile { act: [3, 1, 6, 4, 1, 0, 1], calls: 4, max_depth: 5, ..base },
        "C15" => Profile { threads: (2, 4), calls: 4, act: [6, 2, 1, 1, 1, 2, 0], subscribers: 1, formatters: 2, ..base },
        "C16" => Profile { threads: (2, 4), calls: 3, act: [3, 1, 2, 1, 0, 8, 0], formatters: 2, ..base },
        "C17" => Profile { threads: (1, 3), subscribers: 6, sub_panics: true, act: [6, 2, 1, 1, 1, 0, 0], calls: 6, formatters: 2, ..base },
        "C25" => Profile { threads: (1, 3), calls: 5, act: [6, 1, 2, 2, 3, 1, 1], formatters: 2, subscribers: 2, sub_panics: true, ..base },
        "C22" => Profile { subscribers: 1, sub_panics: true, act: [6, 4, 1, 1, 1, 0, 1], calls: 5, mutations: false, ..base },
        "C18" => Profile { act: [4, 1, 3, 3, 5, 0, 2], calls: 6, max_depth: 4, ..base },
        _ => crate::harness_error("unknown property"),
    }
}

#[derive(Clone, PartialEq)]
enum Out {
    Same,
    Text(String),
    Panic,
}

#[derive(Clone, PartialEq, Debug)]
struct Inv {
    info: String,
    code: String,
    column: usize,
    width: Option<usize>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Id(u32, u64);

enum Res {
    Ok(String),
    Err,
    Panic(Option<Id>),
}

struct Call {
    thread: usize,
    f: usize,
    doc: String,
    w: Option<usize>,
    reflow: bool,
    no_callback: bool,
    invs: Vec<Inv>,
    outs: Vec<Out>,
    panicked: Option<Id>,
    sub_panicked: bool,
    active: bool,
    in_callback: bool,
}

struct Fmt {
    m: Option<Box<MarkdownFormatter>>,
    /// not built once but for each call, by the functions that take a builder
    one_shot: bool,
    o: Opts,
    no_callback: bool,
    thread: usize,
    active: u32,
}

struct Settings {
    o: Opts,
    no_callback: bool,
}

impl Fmt {
    fn settings(&self) -> Settings {
        Settings { o: self.o.clone(), no_callback: self.no_callback }
    }
    fn alive(&self) -> bool {
        self.m.is_some() || self.one_shot
    }
}

struct Host {
    id: String,
    p: Profile,
    ch: Choices,
    sock: i32,
    trace: *mut u8,
    ev: Fnv,
    fmts: Vec<Fmt>,
    docs: Vec<String>,
    frames: [Vec<usize>; simrt::MAX],
    calls: Vec<Call>,
    plan: [u32; simrt::MAX],
    finished: [u32; simrt::MAX],
    budget: u32,
    /// the same formatters all along
    steady: bool,
    /// callbacks call formatters until so many calls are in progress
    deep: usize,
    calm: u32,
    payloads: u64,
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    overlap: bool,
    /// a word that changes from one repetition to the next
    stamp: Option<u32>,
    /// subscribers may be global
    global: bool,
    /// the host has used a subscriber
    subscribed: bool,
    /// where the host's panic hook is
    hook: usize,
    /// for every callback handed over: its formatter, and whether what it captured was dropped
    captured: Vec<(usize, bool)>,
}

static mut HOST: *mut Host = std::ptr::null_mut();
fn h() -> &'static mut Host {
    unsafe { &mut *HOST }
}

fn event(line: &str) {
    let host = h();
    host.ev.add(line.as_bytes());
    unsafe {
        let n = *host.trace.cast::<u64>() as usize;
        let l = line.len() + 1;
        if n + l <= TRACE_CAP {
            std::ptr::copy_nonoverlapping(line.as_ptr(), host.trace.add(8 + n), line.len());
            *host.trace.add(8 + n + line.len()) = b'\n';
            *host.trace.cast::<u64>() = (n + l) as u64;
        }
    }
}
fn say(what: &str) {
    let t = simrt::tid();
    let d = h().frames[t].len();
    event(&format!("T{t} {}{what}", "  ".repeat(d)));
}
fn fired(k: &str) {
    *h().fired.entry(k.to_string()).or_default() += 1;
}
fn probe(k: &str) {
    *h().probes.entry(k.to_string()).or_default() += 1;
}
fn show(s: &str) -> String {
    let short: String = s.chars().take(300).collect();
    if short.len() < s.len() {
        format!("{short:?}... ({} bytes)", s.len())
    } else {
        format!("{short:?}")
    }
}
/// Show two texts around the place where they part.
fn differ(got: &str, want: &str) -> String {
    let k = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| {
        let mut a = k.saturating_sub(60).min(s.len());
        while !s.is_char_boundary(a) {
            a -= 1;
        }
        let t: String = s[a..].chars().take(160).collect();
        format!("{t:?}")
    };
    format!("at byte {k}: ...{}, expected ...{}", cut(got), cut(want))
}

fn finish(v: Option<(&str, String)>) -> ! {
    let host = h();
    let sc = simrt::s();
    host.ev.addn(sc.hash.0);
    let get = |m: &BTreeMap<String, u64>, k: &str| m.get(k).copied().unwrap_or(0);
    let f = &host.fired;
    let nontrivial = match host.id.as_str() {
        "C10" => !host.calls.is_empty(),
        "C11" => host.calls.len() > 1,
        "C12" => get(&host.probes, "callback invocations") > 0,
        "C13" => get(f, "callback returns other text") > 0,
        "C14" => get(f, "nested call") > 0,
        "C15" => host.overlap && sc.switches > 0,
        "C16" => get(f, "callback waits for another thread") > 0,
        "C17" => get(&host.probes, "events observed") > 0,
        "C22" | "C25" => true,
        _ => get(f, "callback panics") > 0,
    };
    let r = json!({
        "class": v.as_ref().map(|x| x.0), "detail": v.as_ref().map(|x| x.1.clone()), "fired": host.fired, "probes": host.probes,
        "sig": host.ev.0.to_string(), "nontrivial": nontrivial, "ns": (sc.now_ns - sc.start_ns).max(0), "switches": sc.switches,
    });
    unsafe {
        send(host.sock, b'R', r.to_string().as_bytes());
        libc::_exit(0);
    }
}

fn fail(class: &str, detail: String) -> ! {
    say(&format!("!! {class}"));
    finish(Some((class, detail)))
}

fn deadlock() -> ! {
    let sc = simrt::s();
    let st: Vec<String> = (0..sc.n).map(|t| format!("T{t} {:?}", sc.st[t])).map(|s| s.split(" addr").next().unwrap_or("").to_string()).collect();
    finish(Some(("deadlock", format!("no thread can go on: {}", st.join(", ")))))
}

fn on_switch(from: usize, to: usize, why: &'static str) {
    // only what the rest of the trace does not tell
    let sc = simrt::s();
    if sc.switches < 200 {
        event(&format!("T{from} {why}, T{to} runs"));
    }
}

// ------------------------------------------------------------------ payloads

struct Custom(u64);

fn throw(id: Id) -> ! {
    let _m = Mode::host();
    match id.0 {
        0 => panic_any(format!("payload {}", id.1)),
        1 => panic_any::<&'static str>(Box::leak(format!("payload {}", id.1).into_boxed_str())),
        2 => panic_any(Custom(id.1)),
        3 => resume_unwind(Box::new(Custom(id.1 | 1 << 40))),
        4 => panic_any(Box::new(Custom(id.1)) as Box<dyn Any + Send>),
        5 => panic!("payload {}", id.1 | 1 << 41),
        _ => resume_unwind(Box::new(id.1)),
    }
}

fn identify(p: &(dyn Any + Send)) -> Option<Id> {
    let num = |s: &str| s.strip_prefix("payload ").and_then(|x| x.parse::<u64>().ok());
    if let Some(s) = p.downcast_ref::<String>() {
        let n = num(s)?;
        return Some(if n & 1 << 41 != 0 { Id(5, n & !(1 << 41)) } else { Id(0, n) });
    }
    if let Some(s) = p.downcast_ref::<&'static str>() {
        return num(s).map(|n| Id(1, n));
    }
    if let Some(c) = p.downcast_ref::<Custom>() {
        return Some(if c.0 & 1 << 40 != 0 { Id(3, c.0 & !(1 << 40)) } else { Id(2, c.0) });
    }
    if let Some(b) = p.downcast_ref::<Box<dyn Any + Send>>() {
        return b.downcast_ref::<Custom>().map(|c| Id(4, c.0));
    }
    p.downcast_ref::<u64>().map(|n| Id(6, *n))
}

fn new_payload() -> Id {
    let host = h();
    host.payloads += 1;
    Id(host.ch.draw(Kind::Fault, 7), host.payloads)
}

// ------------------------------------------------------------------ texts a callback may return

const LINES: &[&str] = &[
    "formatted", "", "```", "~~~~", "````", "# heading", "* item", "- item", "> quote", "---", "+++", "===", "| a | b |", "|---|",
    "    indented", "\tTab", "   ", "&amp;", "\\", "<!-- c", "[a]: b", "[^1]: x", "1. one", "```markdown", "a\u{a0}", "\u{a0}",
    "trailing  ", "  leading", "carriage\r", "a\rb", "\r", "`", "\u{b}", "<div>", "2) two", "*", "a  \\", "日本語 text", "~~~ x", "\u{3000}wide", "]]>", "-->",
    "\t\ttwo tabs", " \tspace and tab", "\t\t\tthree", "        eight", "a\tb", "x \t", "\u{feff}mark", "\t", "\t  tab and two", "end\t",
];

fn other_text(code: &str) -> String {
    let ch = &mut h().ch;
    match ch.draw(Kind::Fault, 8) {
        0 => code.to_uppercase(),
        1 => String::new(),
        2 => (*ch.pick(&["   ", "\n", "\n\n\n", " \n\t\n", "\u{a0}\n"])).to_string(),
        3 => {
            let n = 1 + ch.s(40);
            format!("{}\n", "long ".repeat(n as usize * 10))
        }
        4 => format!("{}\n\n\n", code.trim_end()),
        5 => code.trim_end().to_string(),
        _ => {
            let n = 1 + ch.s(6);
            let mut v: Vec<&str> = vec![];
            for _ in 0..n {
                v.push(ch.pick(LINES));
            }
            let mut s = v.join("\n");
            if ch.sc(3, 4) {
                s.push('\n');
            }
            s
        }
    }
}

// ------------------------------------------------------------------ the callback

struct FormatsWhenDropped(usize, usize);
impl Drop for FormatsWhenDropped {
    fn drop(&mut self) {
        let _m = Mode::host();
        h().calm += 1;
        fired("format call while unwinding");
        let doc = h().docs[self.1].clone();
        let _ = call(self.0, &doc);
        h().calm -= 1;
    }
}

fn callback(f: usize, column: usize, width: Option<usize>, info: &str, code: String) -> String {
    simrt::point();
    let _m = Mode::host();
    if !simrt::is_sim_thread() {
        return code;
    }
    let t = simrt::tid();
    let host = h();
    let Some(&c) = host.frames[t].last() else {
        fail("unexpected-invocation", "the callback was called outside of a format call".into());
    };
    if host.calls[c].f != f {
        fail("wrong-callback", format!("a call of formatter {} called the callback of formatter {f}", host.calls[c].f));
    }
    probe("callback invocations");
    look_around("in the callback");
    say(&format!("callback({}, {}, column {column}, width {width:?})", show(info), show(&code)));
    let call = &mut host.calls[c];
    if call.panicked.is_some() {
        fail("invocation-after-panic", "the callback was called again after it had panicked".into());
    }
    call.invs.push(Inv { info: info.to_string(), code: code.clone(), column, width });
    call.in_callback = true;
    let depth = host.frames[t].len();
    let mut w = host.p.act;
    let loaded = host.budget == 0;
    let down = host.deep > depth && !loaded && host.calm == 0;
    if depth >= host.p.max_depth || loaded {
        w[2] = 0;
        w[3] = 0;
    }
    if loaded || host.calm > 0 {
        w[4] = 0;
        w[6] = 0;
    }
    if depth > 3 {
        w[6] = 0;
    }
    if down {
        w = [0, 0, 30, 10, 0, 0, 0];
    }
    let total: u32 = w.iter().sum();
    let mut d = host.ch.draw(Kind::Fault, total);
    let mut act = 0;
    while d >= w[act] {
        d -= w[act];
        act += 1;
    }
    let out = match act {
        1 => {
            fired("callback returns other text");
            Out::Text(other_text(&code))
        }
        2 | 3 => {
            let catch = act == 3;
            let mut out = Out::Same;
            for _ in 0..1 + if down { 0 } else { h().ch.s(2) } {
                fired("nested call");
                let (g, mut doc) = choose(t, &code);
                if down {
                    doc = (*h().ch.pick(&["```a\nx\n```\n", "a *b*\n\n~~~rust\nx\n~~~\n", "* ```a\n  x\n  ```\n", "````markdown\n```b\nx\n```\n````\n"])).to_string();
                    if depth + 1 == h().deep {
                        fired("deep recursion");
                    }
                }
                if h().fmts[g].active > 0 {
                    fired("nested call of a formatter at work");
                }
                match nested(g, &doc) {
                    Ok(Some(s)) => {
                        out = match h().ch.s(3) {
                            0 => Out::Text(s),
                            1 => Out::Same,
                            _ => Out::Text(other_text(&code)),
                        }
                    }
                    Ok(None) => {}
                    Err(p) if catch => {
                        fired("host code catches a panic");
                        drop(p);
                    }
                    Err(p) => {
                        h().calls[c].outs.push(Out::Panic);
                        h().calls[c].panicked = identify(&*p).or(Some(Id(99, 0)));
                        say("the panic goes on");
                        resume_unwind(p);
                    }
                }
            }
            out
        }
        4 | 6 => {
            let id = new_payload();
            fired("callback panics");
            say(&format!("panics with {id:?}"));
            h().calls[c].outs.push(Out::Panic);
            h().calls[c].panicked = Some(id);
            if act == 6 && h().budget > 0 {
                let (g, _) = choose(t, &code);
                let d = h().ch.s(h().docs.len() as u32) as usize;
                let _d = FormatsWhenDropped(g, d);
                throw(id);
            }
            throw(id);
        }
        5 => {
            if !h().ch.sc(2, 3) || !wait_for_another(t, "callback waits for another thread") {
                simrt::host_yield();
            }
            Out::Same
        }
        _ => Out::Same,
    };
    h().calls[c].outs.push(out.clone());
    h().calls[c].in_callback = false;
    drop(_m);
    simrt::point();
    match out {
        Out::Text(s) => {
            let _m = Mode::host();
            say(&format!("-> {}", show(&s)));
            simrt::given(&s)
        }
        _ => code,
    }
}

/// Wait until a thread of a higher number has finished some call, unless it has.
fn wait_for_another(t: usize, kind: &str) -> bool {
    let n = simrt::s().hosts;
    if t + 1 >= n {
        return false;
    }
    let o = t + 1 + h().ch.s((n - t - 1) as u32) as usize;
    let m = h().ch.s(h().plan[o]);
    if h().finished[o] > m {
        return false;
    }
    fired(kind);
    say(&format!("waits for call {m} of T{o}"));
    while h().finished[o] <= m {
        simrt::wait_event((o as u32) << 8 | m);
    }
    say("goes on");
    true
}

/// A formatter of this thread and a text for it.
fn choose(t: usize, code: &str) -> (usize, String) {
    let host = h();
    let own: Vec<usize> = (0..host.fmts.len())
        .filter(|i| host.fmts[*i].thread == t && host.fmts[*i].alive() && width_now(t, *i).is_some())
        .collect();
    let g = own[host.ch.s(own.len() as u32) as usize];
    let doc = if host.ch.sc(1, 4) {
        format!("* item\n\n  ```rust\n{}\n  ```\n", code.lines().map(|l| format!("  {l}")).collect::<Vec<_>>().join("\n"))
    } else {
        let k = host.ch.s(host.docs.len() as u32) as usize;
        host.docs[k].clone()
    };
    (g, doc)
}

type Panic = Box<dyn Any + Send>;

fn nested(f: usize, doc: &str) -> Result<Option<String>, Panic> {
    call(f, doc)
}

// ------------------------------------------------------------------ the rest of the process (C25)

/// Host code runs: the process has to be as the host left it.
fn look_around(when: &str) {
    if h().id != "C25" {
        return;
    }
    if let Some(what) = simrt::touched() {
        fail("touches-process", format!("the library calls {what} (noticed {when})"));
    }
    if !std::thread::panicking() {
        let hook = std::panic::take_hook();
        let at = std::ptr::addr_of!(*hook).cast::<u8>() as usize;
        std::panic::set_hook(hook);
        if at != h().hook {
            fail("panic-hook", format!("{when} the panic hook is not the one that the host has set"));
        }
    }
    if !h().subscribed && tracing::dispatcher::has_been_set() {
        fail("tracing-default", format!("{when} there is a subscriber that the host did not set"));
    }
}

/// After a call, nothing may be left over.
fn nothing_left() {
    if h().id != "C25" {
        return;
    }
    // what was printed and not written yet
    simrt::library(|| {
        let _ = std::io::Write::flush(&mut std::io::stdout());
    });
    look_around("after the call");
    let n = simrt::left_threads();
    if n > 0 && !h().calls.iter().any(|c| c.active) {
        fail("leaves-threads", format!("no call is in progress, and {n} threads of the library are still there"));
    }
}

// ------------------------------------------------------------------ calls

/// Format `doc` with formatter `f`, and compare with the same call made alone.
fn call(f: usize, doc: &str) -> Result<Option<String>, Panic> {
    let t = simrt::tid();
    let host = h();
    host.budget = host.budget.saturating_sub(1);
    let fm = host.fmts[f].settings();
    let Some(w) = width_now(t, f) else { crate::harness_error("a call whose width is not known") };
    let c = host.calls.len();
    say(&format!("format({}) with formatter {f}, width {w:?}{}", show(doc), if fm.o.reflow { ", reflow" } else { "" }));
    host.calls.push(Call {
        thread: t,
        f,
        doc: doc.to_string(),
        w,
        reflow: fm.o.reflow,
        no_callback: fm.no_callback,
        invs: vec![],
        outs: vec![],
        panicked: None,
        sub_panicked: false,
        active: true,
        in_callback: false,
    });
    if host.calls.iter().any(|x| x.active && x.thread != t) {
        host.overlap = true;
    }
    host.frames[t].push(c);
    host.fmts[f].active += 1;
    let m: Option<*const MarkdownFormatter> = host.fmts[f].m.as_ref().map(|b| &**b as *const _);
    if m.is_none() && !host.fmts[f].one_shot {
        crate::harness_error("formatter is gone");
    }
    let mut text = doc.to_string();
    if let Some(n) = host.stamp {
        // new to the library, but of the same size every time
        let w = format!("w{n:05}");
        let u = format!("\u{e9}\u{8a9e}{n:05}");
        for k in ["formatted", "lorem", "rust", "words"] {
            text = text.replace(k, &w);
        }
        text = text.replace("\u{65e5}\u{672c}\u{8a9e}", &u);
        for w in [w, u] {
            text.push_str(&format!(
                "\n\n{w} words [{w}] `{w}` <{w}>[^{w}] ![{w}]({w} \"{w}\") **{w}** &{w}; \\{w} [{w} x]\n{w}  \n{w}\n\n[{w}]: /{w} '{w}'\n\n[^{w}]: {w}\n\n## {w} {{#{w} .{w} a{w}={w}}}\n\n```{w}\n{w}\n```\n\n| {w} | {w} b |\n|:-:|--|\n| x | {w} {w} |\n\n<div>\n{w}\n</div>\n\n> - {w}\n>   `{w}\n>   {w}`\n\n{w}\n===\n\n1. {w}\n2. x\n\n       {w}\n"
            ));
        }
    }
    let captured = host.captured.len();
    let r = catch_unwind(AssertUnwindSafe(|| match m {
        Some(m) => simrt::library(|| unsafe { (*m).format(&text) }),
        None if fm.no_callback && fm.o == Opts { max_width: None, reflow: false } => {
            simrt::library(|| markdown_fmt::rewrite_markdown(&text))
        }
        None => {
            let b = builder(f, &fm.o, fm.no_callback, 4);
            simrt::library(|| markdown_fmt::rewrite_markdown_with_builder(&text, b))
        }
    }));
    if m.is_none() {
        dropped(captured, "by the function that was given the builder");
    }
    let host = h();
    host.fmts[f].active -= 1;
    host.frames[t].pop();
    host.calls[c].active = false;
    let res = match &r {
        Ok(Ok(s)) => Res::Ok(s.clone()),
        Ok(Err(_)) => Res::Err,
        Err(p) => Res::Panic(identify(&**p)),
    };
    match &res {
        Res::Ok(s) => say(&format!("= {}", show(s))),
        Res::Err => say("= error"),
        Res::Panic(Some(i)) => say(&format!("= panic {i:?}")),
        Res::Panic(None) => say("= panic of the library"),
    }
    nothing_left();
    if host.id != "C22" && host.id != "C25" {
        verify(c, &res);
    }
    match r {
        Ok(Ok(s)) => Ok(Some(s)),
        Ok(Err(_)) => Ok(None),
        Err(p) => Err(p),
    }
}

/// The width formatter `f` has for a call made now: in the middle of formatting, it is lower by the
/// columns of the enclosing blocks.  An event that is observed does not tell whether it comes from
/// inside of a markdown block.
fn width_now(t: usize, f: usize) -> Option<Option<usize>> {
    let host = h();
    if host.fmts[f].one_shot {
        return Some(host.fmts[f].o.max_width);
    }
    let Some(c) = host.frames[t].iter().rev().find(|c| host.calls[**c].f == f) else {
        return Some(host.fmts[f].o.max_width);
    };
    let c = &host.calls[*c];
    if c.in_callback {
        let i = c.invs.last()?;
        return Some(i.width.map(|w| w.saturating_sub(i.column)));
    }
    (!c.doc.contains("markdown")).then_some(c.w)
}

struct Reference {
    invs: Vec<Inv>,
    /// a text, or how it ended
    result: Result<String, String>,
}

fn ask(doc: &str, w: Option<usize>, reflow: bool, outs: &[Out]) -> Reference {
    let s: Vec<Value> = outs
        .iter()
        .map(|o| match o {
            Out::Same => Value::Null,
            Out::Text(t) => Value::String(t.clone()),
            Out::Panic => Value::Bool(true),
        })
        .collect();
    let q = json!({"d": doc, "w": w, "r": reflow, "s": s}).to_string();
    let a = unsafe {
        send(h().sock, b'Q', q.as_bytes());
        match receive(h().sock, 0) {
            Got::Message(b'A', a) => a,
            _ => libc::_exit(9),
        }
    };
    let v: Value = serde_json::from_slice(&a).unwrap_or(Value::Null);
    let invs = v["i"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|x| Inv {
                    info: x[0].as_str().unwrap_or("").into(),
                    code: x[1].as_str().unwrap_or("").into(),
                    column: x[2].as_u64().unwrap_or(0) as usize,
                    width: x[3].as_u64().map(|x| x as usize),
                })
                .collect()
        })
        .unwrap_or_default();
    let result = match &v["r"] {
        Value::Object(o) => Ok(o.get("ok").and_then(|x| x.as_str()).unwrap_or("").to_string()),
        Value::String(s) => Err(s.clone()),
        _ => Err("died".into()),
    };
    Reference { invs, result }
}

fn verify(c: usize, res: &Res) {
    let host = h();
    let call = &host.calls[c];
    match (res, call.panicked) {
        (Res::Panic(got), Some(want)) if *got == Some(want) || want.0 == 99 => {}
        (Res::Panic(got), Some(want)) => {
            fail("payload-changed", format!("the callback panicked with {want:?}, the caller of format got {got:?}"))
        }
        (Res::Ok(_) | Res::Err, Some(want)) => {
            fail("panic-swallowed", format!("the callback panicked with {want:?}, yet format returned"))
        }
        (Res::Panic(Some(got)), None) => fail("foreign-panic", format!("format panicked with {got:?}, which nothing below it raised")),
        _ => {}
    }
    probe("calls compared with a process of their own");
    let r = ask(&call.doc, call.w, call.reflow, &call.outs);
    if r.result.as_ref().is_err_and(|e| e == "died") {
        probe("reference died");
        return;
    }
    if !call.no_callback {
        let ok = if call.sub_panicked {
            r.invs.starts_with(&call.invs)
        } else {
            r.invs == call.invs
        };
        if !ok {
            let k = r.invs.iter().zip(&call.invs).take_while(|(a, b)| a == b).count();
            fail(
                "invocations-differ",
                format!(
                    "invocation {k} of {} is {:?}; alone in a process it is {:?} of {}",
                    call.invs.len(),
                    call.invs.get(k),
                    r.invs.get(k),
                    r.invs.len()
                ),
            );
        }
    }
    match (res, &r.result) {
        (Res::Ok(a), Ok(b)) => {
            if a != b {
                fail("result-differs", format!("from the same call alone in a process, {}", differ(a, b)));
            }
        }
        (Res::Panic(Some(_)), _) => {}
        (Res::Panic(None), Err(e)) if e == "lib" => probe("library panics"),
        // the panic of a nested call, which the callback let through
        (Res::Panic(None), Err(e)) if e == "host" && call.panicked.is_some_and(|i| i.0 == 99) => {}
        (Res::Err, Err(e)) if e == "err" => probe("library errors"),
        (a, b) => {
            let a = match a {
                Res::Ok(s) => format!("returned {}", show(s)),
                Res::Err => "failed".into(),
                Res::Panic(_) => "panicked".into(),
            };
            fail("result-differs", format!("the call {a}, alone in a process it ends with {b:?}"));
        }
    }
    if let (Res::Ok(s), None) = (res, call.panicked) {
        match host.id.as_str() {
            "C12" if !call.no_callback => delivered(c, s),
            "C13" if !call.no_callback => contained(c, s),
            _ => {}
        }
    }
}

/// C12: the invocations are the ones the document calls for.
fn delivered(c: usize, result: &str) {
    let call = &h().calls[c];
    let mut want = vec![];
    // the columns do not depend on what the callback returned; the reference that changes nothing shows them best
    let r = ask(&call.doc, call.w, call.reflow, &[]);
    let formatted = r.result.as_ref().map_or(result, |s| s.as_str());
    mdcheck::expected(&call.doc, Some(formatted), Some(call.w), 0, &mut want);
    let got = &call.invs;
    for k in 0..want.len().max(got.len()) {
        let (Some(g), Some(w)) = (got.get(k), want.get(k)) else {
            fail(
                "wrong-invocations",
                format!("{} invocations for {} fenced blocks; got {:?}, expected {:?}", got.len(), want.len(), got.get(k), want.get(k)),
            );
        };
        if g.info != w.info || g.code != w.code {
            fail("wrong-invocations", format!("invocation {k} is {g:?}, expected {w:?}"));
        }
        if w.column.is_some_and(|x| x != g.column) {
            fail("wrong-column", format!("invocation {k} is {g:?}, but the block stands at column {:?}", w.column));
        }
        if w.width.is_some_and(|x| x != g.width) {
            fail("wrong-width", format!("invocation {k} is {g:?}, but the width there is {:?}", w.width));
        }
        probe(if w.column.is_some() { "columns checked" } else { "columns unknown" });
    }
}

/// C13: what the callback returned is inside of the code blocks, and nothing else changed.
fn contained(c: usize, result: &str) {
    let call = &h().calls[c];
    if call.outs.iter().all(|o| *o == Out::Same) {
        return;
    }
    let r = ask(&call.doc, call.w, call.reflow, &[]);
    let Ok(plain) = &r.result else { return };
    let mut a = vec![];
    let skel_a = mdcheck::skeleton(plain, &[], &mut a, 0);
    let clean = a.len() == call.invs.len() && a.iter().zip(&r.invs).all(|(l, i)| mdcheck::normal(&l.code) == mdcheck::normal(&i.code));
    if !clean {
        probe("documents whose own formatting moves code");
        return;
    }
    let text = |k: usize| match &call.outs[k] {
        Out::Text(s) => s.as_str(),
        _ => call.invs[k].code.as_str(),
    };
    if (0..a.len()).any(|k| text(k).contains('\r') || a[k].fences.iter().any(|f| mdcheck::closes(text(k), *f))) {
        probe("results that close their own fence");
        return;
    }
    let delimits = |t: &str| ["---", "+++"].map(|d| t.split('\n').any(|l| l.trim_matches(['>', ' ', '\t']) == d));
    let there = delimits(plain);
    if (0..a.len()).any(|k| delimits(text(k)).iter().zip(there).any(|(x, y)| *x && y)) {
        // the parser looks for the second delimiter of a metadata block without regard to fences
        probe("results that complete a metadata block");
        return;
    }
    probe("containment checked");
    let mut b = vec![];
    let skel_b = mdcheck::skeleton(result, &[], &mut b, 0);
    if b.len() != a.len() {
        fail("escaped", format!("the document has {} code blocks instead of {}: {}", b.len(), a.len(), show(result)));
    }
    for (k, l) in b.iter().enumerate() {
        let (x, y) = (mdcheck::normal(&l.code), mdcheck::normal(text(k)));
        if x != y {
            fail("content-changed", format!("code block {k}: {}", differ(&x, &y)));
        }
    }
    if skel_a != skel_b {
        fail("escaped", format!("the rest of the document changed, {}", differ(&skel_b, &skel_a)));
    }
    let (sa, sb) = (mdcheck::structure(plain), mdcheck::structure(result));
    if sa != sb {
        let k = sa.iter().zip(&sb).take_while(|(x, y)| x == y).count();
        fail("escaped", format!("the structure changed: {:?} instead of {:?}", sb.get(k), sa.get(k)));
    }
}

// ------------------------------------------------------------------ subscribers

struct Sub {
    level: tracing::Level,
    target: Option<&'static str>,
    fields: bool,
    hint: bool,
    sometimes: bool,
    panic_at: u64,
    format_every: u64,
    format_with: usize,
    /// waits for another thread at this event
    wait_at: u64,
    /// does all that when it is asked whether it wants an event
    early: bool,
    seen: AtomicU64,
}

struct Fields(u64);
impl tracing::field::Visit for Fields {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        let s = simrt::library(|| format!("{v:?}"));
        self.0 ^= hash(f.name().as_bytes()) ^ hash(s.as_bytes());
    }
}

impl Sub {
    fn wants(&self, m: &tracing::Metadata<'_>) -> bool {
        *m.level() <= self.level && self.target.is_none_or(|t| m.target().starts_with(t))
    }
}

impl tracing::Subscriber for Sub {
    fn register_callsite(&self, m: &'static tracing::Metadata<'static>) -> tracing::subscriber::Interest {
        if self.sometimes {
            tracing::subscriber::Interest::sometimes()
        } else if self.wants(m) {
            tracing::subscriber::Interest::always()
        } else {
            tracing::subscriber::Interest::never()
        }
    }
    fn max_level_hint(&self) -> Option<tracing::metadata::LevelFilter> {
        self.hint.then(|| tracing::metadata::LevelFilter::from_level(self.level))
    }
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        if self.early && m.is_event() && self.wants(m) {
            simrt::point();
            self.observe(None);
        }
        self.wants(m)
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        simrt::point();
        if !self.wants(e.metadata()) {
            return;
        }
        if self.early {
            let _m = Mode::host();
            if self.fields {
                e.record(&mut Fields(0));
            }
        } else {
            self.observe(Some(e));
        }
    }
}

/// The global subscriber, which passes what it gets to the one that the thread has chosen.
struct Router;
static mut ROUTES: [Option<Sub>; simrt::MAX] = [const { None }; simrt::MAX];
fn route() -> Option<&'static Sub> {
    if !simrt::is_sim_thread() {
        return None;
    }
    unsafe { (*std::ptr::addr_of!(ROUTES))[simrt::tid()].as_ref() }
}
impl tracing::Subscriber for Router {
    fn register_callsite(&self, _: &'static tracing::Metadata<'static>) -> tracing::subscriber::Interest {
        tracing::subscriber::Interest::sometimes()
    }
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        route().is_some_and(|r| r.enabled(m))
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        if let Some(r) = route() {
            r.event(e);
        }
    }
}

impl Sub {
    fn observe(&self, e: Option<&tracing::Event<'_>>) {
        let _m = Mode::host();
        if !simrt::is_sim_thread() {
            return;
        }
        let t = simrt::tid();
        let n = self.seen.fetch_add(1, Ordering::SeqCst) + 1;
        probe("events observed");
        look_around("in the subscriber");
        if let (true, Some(e)) = (self.fields, e) {
            e.record(&mut Fields(0));
        }
        let host = h();
        let Some(&c) = host.frames[t].last() else { return };
        if self.format_every > 0 && n % self.format_every == 0 && n / self.format_every < 4 && host.calm == 0 && host.budget > 0 {
            let f = self.format_with;
            if host.fmts[f].alive() && width_now(t, f).is_some() {
                fired("subscriber formats");
                if host.fmts[f].active > 0 {
                    fired("subscriber formats with the formatter at work");
                }
                host.calm += 1;
                let k = host.ch.s(host.docs.len() as u32) as usize;
                let doc = host.docs[k].clone();
                let _ = call(f, &doc);
                h().calm -= 1;
            }
        }
        if self.wait_at == n && h().calm == 0 {
            wait_for_another(t, "subscriber waits for another thread");
        }
        if self.panic_at == n && h().calm == 0 && !std::thread::panicking() {
            let id = new_payload();
            fired("subscriber panics");
            say(&format!("the subscriber panics at event {n} with {id:?}"));
            h().calls[c].panicked = Some(id);
            h().calls[c].sub_panicked = true;
            drop(_m);
            throw(id);
        }
    }
}

fn with_subscriber(t: usize, f: impl FnOnce()) {
    let host = h();
    let ch = &mut host.ch;
    let level = *ch.pick(&[tracing::Level::TRACE, tracing::Level::DEBUG, tracing::Level::INFO, tracing::Level::ERROR]);
    let target = *ch.pick(&[None, None, Some("markdown_fmt"), Some("markdown_fmt::links"), Some("markdown_fmt::formatter"), Some("x")]);
    let own: Vec<usize> = (0..host.fmts.len()).filter(|i| host.fmts[*i].thread == t && host.fmts[*i].alive()).collect();
    let sub = Sub {
        level,
        target,
        fields: ch.sc(2, 3),
        hint: ch.sc(1, 2),
        sometimes: ch.sc(1, 2),
        panic_at: if host.p.sub_panics && ch.chance(Kind::Fault, 1, 3) {
            let scale = 4 + ch.draw(Kind::Fault, 8);
            u64::from(1 + ch.draw(Kind::Fault, 1 << scale))
        } else {
            0
        },
        format_every: if ch.sc(1, 3) { u64::from(1 + ch.s(40)) } else { 0 },
        format_with: own[ch.s(own.len() as u32) as usize],
        wait_at: if simrt::s().hosts > 1 && ch.sc(1, 2) {
            let scale = 1 + ch.s(6);
            u64::from(1 + ch.s(1 << scale))
        } else {
            0
        },
        early: ch.sc(1, 8),
        seen: AtomicU64::new(0),
    };
    let global = host.global && host.ch.sc(2, 3);
    host.subscribed = true;
    say(&format!("subscriber: {level} {target:?} fields {} panics at {} formats every {}", sub.fields, sub.panic_at, sub.format_every));
    if global {
        fired("global subscriber");
        unsafe { ROUTES[t] = Some(sub) };
        // there may be one already
        let _ = tracing::subscriber::set_global_default(Router);
        f();
        unsafe { ROUTES[t] = None };
    } else {
        fired("subscriber installed");
        let d = tracing::Dispatch::new(sub);
        tracing::dispatcher::with_default(&d, f);
    }
}

// ------------------------------------------------------------------ scenarios

fn options(ch: &mut Choices) -> Opts {
    let max_width = *ch.pick(&[None, Some(80), Some(40), Some(20), Some(100), Some(10), Some(2), Some(0), Some(60)]);
    Opts { max_width, reflow: ch.sc(1, 2) }
}

fn new_formatter(t: usize) {
    let host = h();
    let f = host.fmts.len();
    let ch = &mut host.ch;
    let mut o = options(ch);
    if host.steady && ch.sc(1, 3) {
        o.max_width = None;
    }
    let no_callback = ch.sc(1, 12);
    let how = ch.s(4);
    let one_shot = ch.sc(1, 8);
    host.fmts.push(Fmt { m: None, one_shot, o: o.clone(), no_callback, thread: t, active: 0 });
    let what = if one_shot { "will build" } else { "builds" };
    say(&format!("{what} formatter {f}: width {:?}{}", o.max_width, if o.reflow { ", reflow" } else { "" }));
    if !one_shot {
        let b = builder(f, &o, no_callback, how);
        h().fmts[f].m = Some(Box::new(simrt::library(|| b.build())));
    }
}

/// Something a callback captures.
struct Token(usize);
impl Drop for Token {
    fn drop(&mut self) {
        let _m = Mode::host();
        let host = h();
        let f = host.captured[self.0].0;
        host.captured[self.0].1 = true;
        if f != usize::MAX && host.fmts[f].active > 0 && !host.fmts[f].one_shot {
            fail("dropped-in-use", format!("what the callback of formatter {f} captured was dropped during a call"));
        }
    }
}
fn token(f: usize) -> Token {
    let _m = Mode::host();
    h().captured.push((f, false));
    Token(h().captured.len() - 1)
}
/// C22: what the callbacks from `from` on captured is gone.
fn dropped(from: usize, when: &str) {
    let host = h();
    if host.id == "C22" {
        if let Some(k) = (from..host.captured.len()).find(|k| !host.captured[*k].1) {
            fail("callback-kept", format!("what callback {k}, of formatter {}, captured was not dropped {when}", host.captured[k].0));
        }
        probe("captures dropped");
    }
}

/// Set up a builder in one of several ways.
fn builder(f: usize, o: &Opts, no_callback: bool, how: u32) -> FormatBuilder {
    let other = if how == 2 { options(&mut h().ch) } else { o.clone() };
    let way = if how == 1 { h().ch.s(6) } else { 0 };
    simrt::library(|| {
        let tok = token(f);
        let cb = move |ctx: &markdown_fmt::CodeBlockContext, info: &str, code: String| {
            let _ = &tok;
            callback(f, ctx.indentation(), ctx.max_width(), info, code)
        };
        let b = if no_callback {
            FormatBuilder::default()
        } else if how == 0 {
            FormatBuilder::with_code_block_formatter(cb)
        } else {
            let mut b = FormatBuilder::default();
            if how == 1 {
                // other callbacks first
                let mut olds = vec![];
                let mut first = way % 2 == 0;
                for _ in 0..=way / 2 {
                    let old = token(usize::MAX);
                    olds.push(old.0);
                    let old = move |_: &markdown_fmt::CodeBlockContext, _: &str, _: String| -> String {
                        let _ = &old;
                        panic!("a callback that was replaced")
                    };
                    if first {
                        b = FormatBuilder::with_code_block_formatter(old);
                        first = false;
                    } else {
                        b.code_block_formatter(old);
                    }
                }
                b.code_block_formatter(cb);
                let _m = Mode::host();
                if h().id == "C22" && olds.iter().any(|k| !h().captured[*k].1) {
                    fail("callback-kept", "what a callback captured was not dropped when another took its place".into());
                }
                return finish_builder(b, o, &other, how);
            }
            b.code_block_formatter(cb);
            b
        };
        finish_builder(b, o, &other, how)
    })
}

fn finish_builder(mut b: FormatBuilder, o: &Opts, other: &Opts, how: u32) -> FormatBuilder {
    if how == 2 {
        // the last setting counts
        b.max_width(other.max_width).reflow_text(other.reflow);
    }
    if how == 3 {
        b.reflow_text(o.reflow).max_width(o.max_width);
    } else {
        b.max_width(o.max_width).reflow_text(o.reflow);
    }
    b
}

fn discard(f: usize) {
    say(&format!("drops formatter {f}"));
    let m = h().fmts[f].m.take();
    let had = m.is_some();
    h().fmts[f].one_shot = false;
    simrt::library(|| drop(m));
    if had {
        if let Some(k) = h().captured.iter().position(|c| c.0 == f && !c.1) {
            if h().id == "C22" {
                fail("callback-kept", format!("what callback {k} captured was not dropped with its formatter"));
            }
        }
    }
}

/// C22: the same history again and again.
fn repetitions() {
    let seed = u64::from(h().ch.s(u32::MAX));
    let n = h().plan[0];
    let keep = h().ch.sc(1, 2);
    for _ in 0..1 + h().ch.s(2) {
        new_formatter(0);
    }
    let standing = h().fmts.len();
    let mut marks = vec![];
    for round in 1..=24u32 {
        h().ch.derive(Some(seed));
        h().stamp = Some(round * 37);
        h().budget = 24;
        if !keep {
            new_formatter(0);
        }
        for _ in 0..n {
            step(0);
        }
        h().ch.derive(None);
        for f in standing..h().fmts.len() {
            discard(f);
        }
        h().fmts.truncate(standing);
        h().calls.clear();
        if round % 8 == 0 {
            marks.push(simrt::live());
        }
    }
    h().stamp = None;
    say(&format!("held by the library: {marks:?}"));
    if marks[0] < marks[1] && marks[1] < marks[2] {
        fail("memory-grows", format!("after 8, 16 and 24 repetitions the library holds {marks:?} bytes"));
    }
    for f in 0..standing {
        discard(f);
    }
}

fn thread_main(t: usize) {
    if h().id == "C22" {
        return repetitions();
    }
    for _ in 0..1 + h().ch.s(2) {
        new_formatter(t);
    }
    let n = h().plan[t];
    for k in 0..n {
        let own: Vec<usize> = (0..h().fmts.len()).filter(|i| h().fmts[*i].thread == t && h().fmts[*i].alive()).collect();
        match h().ch.s(10) {
            _ if h().steady => {}
            8 if own.len() < h().p.formatters as usize => new_formatter(t),
            9 if own.len() > 1 => {
                let f = own[h().ch.s(own.len() as u32) as usize];
                discard(f);
            }
            _ => {}
        }
        step(t);
        h().finished[t] = k + 1;
        simrt::signal_event((t as u32) << 8 | k);
    }
}

fn step(t: usize) {
    let own: Vec<usize> = (0..h().fmts.len()).filter(|i| h().fmts[*i].thread == t && h().fmts[*i].alive()).collect();
    let f = own[h().ch.s(own.len() as u32) as usize];
    let d = h().ch.s(h().docs.len() as u32) as usize;
    let doc = h().docs[d].clone();
    let subs = h().p.subscribers;
    if subs > 0 && h().ch.sc(subs, 8) {
        with_subscriber(t, || {
            let _ = call(f, &doc);
        });
    } else {
        let _ = call(f, &doc);
    }
}

fn child(id: &str, mut ch: Choices, sock: i32, choices: *mut u32, trace: *mut u8) -> ! {
    ch.share(choices);
    // the same in every process: whether the standard library has set this up
    let _ = std::io::Write::flush(&mut std::io::stdout());
    let mark = std::hint::black_box(0x600d);
    let hook: Box<dyn Fn(&std::panic::PanicHookInfo<'_>) + Send + Sync> = Box::new(move |i| {
        std::hint::black_box(mark);
        // the check's own mistakes must not look like the library's
        if std::thread::current().name() == Some("main") && !simrt::is_sim_thread() {
            unsafe {
                send(h().sock, b'H', i.to_string().as_bytes());
                libc::_exit(2);
            }
        }
    });
    let at = std::ptr::addr_of!(*hook).cast::<u8>() as usize;
    std::panic::set_hook(hook);
    let hook = at;
    let p = profile(id);
    let mut n = if id == "C17" && ch.sc(3, 4) { 1 } else { p.threads.0 + if p.threads.1 > p.threads.0 { ch.s(p.threads.1 - p.threads.0 + 1) } else { 0 } };
    let crowd = p.threads.1 > 3 && ch.sc(1, 12);
    if crowd {
        n = 5 + ch.s(8);
    }
    let mut host = Host {
        id: id.to_string(),
        p,
        ch,
        sock,
        trace,
        ev: Fnv::default(),
        fmts: vec![],
        docs: vec![],
        frames: Default::default(),
        calls: vec![],
        plan: [0; simrt::MAX],
        finished: [0; simrt::MAX],
        budget: 24,
        steady: false,
        deep: 0,
        calm: 0,
        payloads: 0,
        fired: BTreeMap::new(),
        probes: BTreeMap::new(),
        overlap: false,
        stamp: None,
        captured: vec![],
        global: false,
        subscribed: false,
        hook,
    };
    unsafe { HOST = &mut host };
    h().global = h().p.subscribers > 0 && h().ch.sc(1, 3);
    let ch = &mut h().ch;
    let long = ch.sc(1, 24);
    let endless = long && n == 1 && ch.sc(1, if id == "C11" { 2 } else { 6 });
    h().steady = endless && ch.sc(1, 2);
    let cfg = docs::Cfg { code_bias: 4, max_depth: 3, max_blocks: 4, tabs: ch.sc(1, 2) && id != "C13" };
    for _ in 0..1 + ch.s(3) {
        let mut d = if ch.s(8) < p.generated { docs::generated(ch, &cfg) } else { docs::any(ch, &cfg, p.mutations) };
        if d.len() > 4000 && !(d.len() < 16_000 && ch.sc(1, 8)) {
            let mut k = 1500;
            while !d.is_char_boundary(k) {
                k -= 1;
            }
            d.truncate(k);
        }
        if ch.sc(1, 6) {
            d = format!("{d}\n\n{d}");
        }
        if p.mutations && ch.sc(1, 4) {
            if let Some(before) = h().docs.last() {
                d = docs::cousin(ch, before);
            }
        }
        h().docs.push(d);
    }
    let deep = if p.act[2] > 1 && n < 3 && ch.sc(1, if id == "C14" { 16 } else { 40 }) { *ch.pick(&[8usize, 12, 20, 34, 66, 130]) } else { 0 };
    for t in 0..n as usize {
        h().plan[t] = 1 + ch.s(if crowd { 2 } else if deep > 0 { 3 } else { p.calls });
        if deep > 0 {
            h().deep = deep;
            h().budget = 2 * deep as u32 + 20;
        }
        if long && n == 1 {
            h().plan[t] += 30;
            h().budget = 80;
        }
        if endless {
            let more = ch.sc(1, 8);
            h().plan[t] += if more { 1200 } else { 270 };
            for d in &mut h().docs {
                let mut k = d.len().min(if more { 60 } else { 160 });
                while !d.is_char_boundary(k) {
                    k -= 1;
                }
                d.truncate(k);
            }
            if ch.sc(1, 2) {
                for _ in 0..1 + ch.s(3) {
                    let d = docs::plain(ch);
                    h().docs.push(d);
                }
            }
        }
    }
    let sc = simrt::s();
    sc.rand = u64::from(ch.s(u32::MAX));
    sc.now_ns = i64::from(ch.s(1 << 30)) * *ch.pick(&[1i64, 1_000_000_000]);
    sc.start_ns = sc.now_ns;
    sc.clock_step = *ch.pick(&[1000i64, 0, 1_000_000_000]);
    if id == "C10" {
        surroundings(ch);
    }
    simrt::run(&mut h().ch, n as usize, deadlock, on_switch, thread_main);
    finish(None)
}

/// What a process may find around itself.
fn surroundings(ch: &mut Choices) {
    for (k, v) in [
        ("LANG", "tr_TR.UTF-8"),
        ("LC_ALL", "C"),
        ("COLUMNS", "20"),
        ("RUST_LOG", "trace"),
        ("MARKDOWN_FMT_LOG", "trace"),
        ("NO_COLOR", "1"),
        ("HOME", "/nonexistent"),
        ("TZ", "Asia/Tokyo"),
        ("MAX_WIDTH", "10"),
        ("USER", "nobody"),
    ] {
        if ch.sc(1, 3) {
            std::env::set_var(k, v);
            *h().fired.entry("environment variation".into()).or_default() += 1;
        }
    }
    if ch.sc(1, 2) {
        let _ = std::env::set_current_dir("/tmp");
    }
    simrt::CPUS.store(*ch.pick(&[4i64, 1, 2, 64, 256]), std::sync::atomic::Ordering::Relaxed);
    for _ in 0..ch.s(8) {
        let n = ch.s(1 << 16) as usize;
        std::mem::forget(vec![0xa5u8; n]);
        drop(vec![0x5au8; n / 2 + 1]);
    }
}
