//! The simulated machine: real processes of the command-line program, preloaded with the shim, on
//! top of the simulated file system.  Every request of every process is answered here, one at a
//! time, in the order the schedule stream decides.

use crate::choice::{Choices, Kind};
use crate::fs::*;
use crate::rng::{mix, Fnv};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::CString;
use std::os::fd::RawFd;
use std::rc::Rc;

pub mod op {
    pub const HELLO: u32 = 1;
    pub const OPEN: u32 = 2;
    pub const CLOSE: u32 = 3;
    pub const READ: u32 = 4;
    pub const WRITE: u32 = 5;
    pub const LSEEK: u32 = 6;
    pub const FSYNC: u32 = 7;
    pub const FTRUNCATE: u32 = 8;
    pub const STAT: u32 = 9;
    pub const FSTAT: u32 = 10;
    pub const CHMOD: u32 = 11;
    pub const FCHMOD: u32 = 12;
    pub const CHOWN: u32 = 13;
    pub const FCHOWN: u32 = 14;
    pub const RENAME: u32 = 15;
    pub const LINK: u32 = 16;
    pub const SYMLINK: u32 = 17;
    pub const UNLINK: u32 = 18;
    pub const MKDIR: u32 = 19;
    pub const READLINK: u32 = 20;
    pub const REALPATH: u32 = 21;
    pub const GETCWD: u32 = 22;
    pub const CHDIR: u32 = 23;
    pub const DUP: u32 = 24;
    pub const READDIR: u32 = 25;
    pub const ACCESS: u32 = 26;
    pub const TRUNCATE: u32 = 27;
    pub const FLOCK: u32 = 28;
    pub const SLEEP: u32 = 29;
    pub const UTIME: u32 = 30;
    pub const FCNTL: u32 = 32;
    pub const YIELD: u32 = 33;
    pub const UMASK: u32 = 34;
    pub const SYNC: u32 = 35;
    pub const LINKFD: u32 = 36;
    pub const ALLOCFAIL: u32 = 38;
    pub const GETENV: u32 = 39;
    pub const HANG: u32 = 40;
}

const NAMES: [&str; 41] = [
    "?", "start", "open", "close", "read", "write", "lseek", "fsync", "ftruncate", "stat", "fstat", "chmod", "fchmod",
    "chown", "fchown", "rename", "link", "symlink", "unlink", "mkdir", "readlink", "realpath", "getcwd", "chdir", "dup",
    "readdir", "access", "truncate", "flock", "sleep", "utime", "statfs", "fcntl", "yield", "umask", "sync", "linkfd",
    "getrandom", "alloc-failure", "getenv", "hang",
];

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Fault {
    OpenErr,
    ReadErr,
    WriteErr,
    TornWrite,
    SyncErr,
    MetaErr,
    StatErr,
    UnlinkErr,
    CloseErr,
    ShortRead,
    ShortWrite,
    Eintr,
    Kill,
    PowerLoss,
    DiskDead,
    DiskFull,
    StdoutErr,
    StderrErr,
    /// stopped for a while or for good, alive and holding what it holds
    Stop,
}

impl Fault {
    pub fn name(self) -> &'static str {
        match self {
            Fault::OpenErr => "open error",
            Fault::ReadErr => "read error",
            Fault::WriteErr => "write error",
            Fault::TornWrite => "torn write then error",
            Fault::SyncErr => "fsync error (dirty data dropped)",
            Fault::MetaErr => "rename/chmod/chown/link error",
            Fault::StatErr => "stat/path lookup error",
            Fault::UnlinkErr => "unlink error",
            Fault::CloseErr => "close error",
            Fault::ShortRead => "short read",
            Fault::ShortWrite => "short write",
            Fault::Eintr => "EINTR",
            Fault::Kill => "process killed",
            Fault::PowerLoss => "power loss",
            Fault::DiskDead => "disk dies for good",
            Fault::DiskFull => "disk full",
            Fault::StdoutErr => "stdout error",
            Fault::StderrErr => "stderr error",
            Fault::Stop => "process stopped",
        }
    }
}

#[derive(Clone, Default)]
pub struct FaultPlan {
    pub enabled: Vec<Fault>,
    /// per request, out of 256
    pub rate: u32,
    pub budget: u32,
    /// bytes the next write may still take before TornWrite's error
    pub torn: Option<i32>,
    /// what failed once fails for good
    pub sticky: bool,
    pub stuck: Vec<(Fault, Option<i32>)>,
    /// data arrives in pieces and late on pipes
    pub arrivals: bool,
}

/// Bytes on their way through a pipe.
#[derive(Clone, Debug, Default)]
pub struct Pipe {
    pub data: Vec<u8>,
    pub pos: usize,
    /// instead of more bytes or the end
    pub err: Option<i32>,
    /// requests to read
    pub reads: u32,
    /// whoever writes to it has opened it
    pub writer: bool,
}

/// Where standard output or error goes.
#[derive(Clone, Debug, Default)]
pub struct Sink {
    pub accepted: Vec<u8>,
    /// after this many bytes every write fails
    pub limit: Option<usize>,
    pub err: i32,
    /// a sink error was delivered to the process
    pub failed: bool,
    pub chardev: bool,
    pub writes: u32,
}

#[derive(Clone)]
pub struct OpenFile {
    pub ino: Option<Ino>,
    /// 0, 1, 2 for the standard streams
    pub std: Option<u8>,
    pub off: usize,
    pub append: bool,
    pub readable: bool,
    pub writable: bool,
    pub flags: i64,
    pub path: String,
    pub locked: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    /// by the simulator: killed or lost power
    Killed,
}

#[derive(Clone)]
pub struct Req {
    pub op: u32,
    pub a: [i64; 5],
    pub data: Vec<u8>,
}

impl Req {
    fn paths(&self) -> (String, String) {
        let mut it = self.data.split(|b| *b == 0);
        let f = |x: Option<&[u8]>| cooked(x.unwrap_or(&[]));
        let a = f(it.next());
        let b = f(it.next());
        (a, b)
    }
}

/// Names are strings here; the bytes of names that are not UTF-8 are U+F780 to U+F7FF.
pub fn cooked(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.utf8_chunks() {
        s.push_str(c.valid());
        s.extend(c.invalid().iter().filter_map(|b| char::from_u32(0xf700 + u32::from(*b))));
    }
    s
}
pub fn raw(s: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in s.chars() {
        match u32::from(c) {
            b @ 0xf780..=0xf7ff => v.push((b & 0xff) as u8),
            _ => v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    v
}

#[derive(PartialEq)]
pub enum State {
    Waiting,
    Running,
    Blocked,
    Done,
}

/// The wall clock at the start of the simulation, if a process has no clock of its own.
pub const WALL_NS: i64 = 1_700_000_000_000_000_000;

/// What a process asks for and finds although nobody put it there.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dream {
    Nothing,
    Variables,
    /// ... and files
    Files,
}

/// How to start a process.
#[derive(Clone, Debug)]
pub struct Spec {
    pub exe: String,
    /// the name the program is started by
    pub name: String,
    pub args: Vec<String>,
    pub env: Vec<(String, Vec<u8>)>,
    pub cwd: String,
    pub uid: u32,
    pub umask: u32,
    pub vpid: i64,
    pub realtime_ns: i64,
    pub clock_step_ns: i64,
    pub jump_every: i64,
    pub jump_ns: i64,
    pub random_seed: u64,
    pub alloc_fail_at: i64,
    pub alloc_fail_forever: bool,
    pub alloc_pad: i64,
    /// processors the program may use
    pub cpus: i64,
    pub aslr: bool,
    /// which of the standard streams are terminals, and how wide
    pub tty: i64,
    pub columns: i64,
    /// variables that are not set may turn out to be set, files that are missing to exist
    pub dream: Dream,
    pub stdout: Sink,
    pub stderr: Sink,
    /// what arrives on standard input
    pub stdin: Pipe,
}

impl Default for Spec {
    fn default() -> Self {
        Spec {
            exe: crate::cli_binary(),
            name: "markdown-fmt".into(),
            args: vec![],
            env: vec![
                ("PATH".into(), b"/usr/bin:/bin".to_vec()),
                ("HOME".into(), b"/home/user".to_vec()),
                ("LANG".into(), b"C.UTF-8".to_vec()),
                ("RUST_BACKTRACE".into(), b"0".to_vec()),
            ],
            cwd: "/sim/work".into(),
            uid: 1000,
            umask: 0o022,
            vpid: 4242,
            realtime_ns: WALL_NS,
            clock_step_ns: 1_000_000,
            jump_every: 0,
            jump_ns: 0,
            random_seed: 1,
            alloc_fail_at: 0,
            alloc_fail_forever: false,
            alloc_pad: 0,
            cpus: 4,
            aslr: false,
            tty: 0,
            columns: 80,
            dream: Dream::Nothing,
            stdout: Sink::default(),
            stderr: Sink::default(),
            stdin: Pipe::default(),
        }
    }
}

pub struct Proc {
    pub spec: Spec,
    pub state: State,
    pub real_pid: i32,
    sock: RawFd,
    req: Option<Req>,
    handles: Vec<Option<Rc<RefCell<OpenFile>>>>,
    pub cwd: String,
    pub umask: u32,
    pub out: Sink,
    pub err: Sink,
    pub stdin: Pipe,
    /// not scheduled before this step
    pub stopped: u64,
    pub end: Option<End>,
    pub ops: u64,
    pub yields: u64,
    pub started: u64,
    pub ended: u64,
    /// global steps at which a fault hit this process
    pub faults: Vec<(u64, Fault)>,
    pub alloc_failed: bool,
    pub read_bytes: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub fn violation(class: &str, detail: impl Into<String>) -> Option<Violation> {
    Some(Violation { class: class.to_string(), detail: detail.into() })
}

pub struct World {
    /// how much longer threads may have to wait for input
    patience: i64,
    /// how many reads that do not wait may still come too early
    early_reads: u32,
    pub fs: Fs,
    pub procs: Vec<Proc>,
    pub plan: FaultPlan,
    pub step: u64,
    pub now_ns: i64,
    pub dead: bool,
    pub trace: Vec<String>,
    pub log: Fnv,
    pub fired: BTreeMap<String, u64>,
    pub switches: u64,
    pub power_lost: bool,
    /// an attempt to change something outside the simulated directories
    pub escaped: Option<String>,
    last: usize,
    pub max_ops: u64,
    /// the bytes there were to read when the first run began
    to_read: Option<u64>,
    pub probes: BTreeMap<String, u64>,
    dreamt: Vec<String>,
    hung: bool,
    /// named pipes by inode
    pub pipes: BTreeMap<Ino, Pipe>,
}

const PASSTHROUGH: i64 = -9999;

type R = Result<i64, i32>;

pub struct Walk {
    pub parent: Ino,
    pub name: String,
    pub ino: Option<Ino>,
    pub canonical: String,
}

fn real_readonly(path: &str) -> bool {
    ["/proc", "/sys", "/etc", "/usr", "/lib", "/lib64", "/bin", "/dev"]
        .iter()
        .any(|p| path == *p || path.strip_prefix(p).is_some_and(|r| r.starts_with('/')))
}

impl World {
    pub fn new() -> Self {
        World {
            patience: 120_000_000_000,
            early_reads: 64,
            fs: Fs::new(),
            procs: vec![],
            plan: FaultPlan::default(),
            step: 0,
            now_ns: 0,
            dead: false,
            trace: vec![],
            log: Fnv::default(),
            fired: BTreeMap::new(),
            switches: 0,
            power_lost: false,
            escaped: None,
            last: 0,
            max_ops: 100_000,
            to_read: None,
            probes: BTreeMap::new(),
            dreamt: vec![],
            hung: false,
            pipes: BTreeMap::new(),
        }
    }

    /// Somebody else replaces a file in one durable step.
    pub fn replace(&mut self, path: &str, bytes: Rc<Vec<u8>>, mode: u32, uid: u32) {
        let Some((d, name)) = path.rsplit_once('/') else { return };
        let Some(dir) = self.fs.now.resolve(d, true) else { return };
        let ino = self.fs.fresh_ino();
        let dev = self.fs.now.nodes[&dir].dev;
        let tmp = ".#saving".to_string();
        let inode = Inode { node: Node::File(bytes), mode: S_IFREG | mode, uid, gid: uid, dev, mtime: WALL_NS + self.now_ns };
        self.fs.run(Op::Create { dir, name: tmp.clone(), ino, inode });
        self.fs.run(Op::Rename { dir, name: tmp, to_dir: dir, to_name: name.to_string(), exchange: false });
        self.probe("documents saved by an editor");
        self.note(usize::MAX, format!("somebody saves {path}"));
    }

    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_default() += 1;
    }

    pub fn add(&mut self, spec: Spec) -> usize {
        self.procs.push(Proc {
            state: State::Waiting,
            real_pid: 0,
            sock: -1,
            req: None,
            handles: (0..3u8)
                .map(|i| {
                    Some(Rc::new(RefCell::new(OpenFile {
                        ino: None,
                        std: Some(i),
                        off: 0,
                        append: false,
                        readable: i == 0,
                        writable: i != 0,
                        flags: 2,
                        path: String::new(),
                        locked: false,
                    })))
                })
                .collect(),
            cwd: spec.cwd.clone(),
            umask: spec.umask,
            out: spec.stdout.clone(),
            err: spec.stderr.clone(),
            stdin: spec.stdin.clone(),
            stopped: 0,
            end: None,
            ops: 0,
            yields: 0,
            started: 0,
            ended: 0,
            faults: vec![],
            alloc_failed: false,
            read_bytes: 0,
            spec,
        });
        self.procs.len() - 1
    }

    fn spawn(&mut self, i: usize) {
        let p = &mut self.procs[i];
        let (mine, theirs) = socketpair();
        let exe = p.spec.exe.clone();
        let mut argv: Vec<CString> = vec![CString::new(p.spec.name.as_bytes()).unwrap_or_default()];
        for a in &p.spec.args {
            argv.push(CString::new(raw(a)).unwrap_or_default());
        }
        let mut envp: Vec<CString> = vec![];
        for (k, v) in &p.spec.env {
            envp.push(CString::new([k.as_bytes(), b"=", v].concat()).unwrap_or_default());
        }
        envp.push(CString::new("MDSIM_SOCK=3").unwrap());
        envp.push(CString::new(format!("LD_PRELOAD={}", crate::shim_path())).unwrap());
        let argp: Vec<*const libc::c_char> =
            argv.iter().map(|c| c.as_ptr()).chain(std::iter::once(std::ptr::null())).collect();
        let envpp: Vec<*const libc::c_char> =
            envp.iter().map(|c| c.as_ptr()).chain(std::iter::once(std::ptr::null())).collect();
        let exe = CString::new(exe).unwrap();
        let aslr = p.spec.aslr;
        // SAFETY: only async-signal-safe calls between fork and exec
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            crate::harness_error("fork failed");
        }
        if pid == 0 {
            unsafe {
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                libc::dup2(null, 0);
                libc::dup2(null, 1);
                libc::dup2(null, 2);
                if theirs != 3 {
                    libc::dup2(theirs, 3);
                } else {
                    libc::fcntl(3, libc::F_SETFD, 0);
                }
                for fd in 4..64 {
                    libc::close(fd);
                }
                let lim = |r, soft: u64, hard: u64| {
                    let l = libc::rlimit { rlim_cur: soft, rlim_max: hard };
                    libc::setrlimit(r, &l);
                };
                lim(libc::RLIMIT_CPU, 15, 16);
                lim(libc::RLIMIT_CORE, 0, 0);
                lim(libc::RLIMIT_FSIZE, 0, 0);
                lim(libc::RLIMIT_AS, 4 << 30, 4 << 30);
                if !aslr {
                    libc::personality(0x0040000);
                }
                libc::chdir(c"/".as_ptr());
                libc::setgid(65534);
                libc::setuid(65534);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::execve(exe.as_ptr(), argp.as_ptr(), envpp.as_ptr());
                libc::_exit(98);
            }
        }
        unsafe { libc::close(theirs) };
        p.real_pid = pid;
        p.sock = mine;
        p.state = State::Running;
        p.started = self.step;
    }

    /// Receive the next request of a running process, or notice its end.
    fn settle(&mut self, i: usize) {
        let step = self.step;
        let p = &mut self.procs[i];
        let mut head = [0u8; 48];
        if !recv_exact(p.sock, &mut head) {
            self.reap(i, false);
            return;
        }
        let g32 = |o: usize| u32::from_le_bytes(head[o..o + 4].try_into().unwrap());
        let g64 = |o: usize| i64::from_le_bytes(head[o..o + 8].try_into().unwrap());
        let len = g32(4) as usize;
        let mut data = vec![0u8; len];
        if !recv_exact(p.sock, &mut data) {
            self.reap(i, false);
            return;
        }
        p.req = Some(Req { op: g32(0), a: [g64(8), g64(16), g64(24), g64(32), g64(40)], data });
        p.state = State::Blocked;
        p.ended = step;
    }

    fn reap(&mut self, i: usize, killed: bool) {
        let p = &mut self.procs[i];
        let mut st = 0;
        unsafe {
            if killed {
                libc::kill(p.real_pid, libc::SIGKILL);
            }
            while libc::waitpid(p.real_pid, &mut st, 0) < 0 {}
            libc::close(p.sock);
        }
        let end = if killed {
            End::Killed
        } else if libc::WIFEXITED(st) {
            End::Exit(libc::WEXITSTATUS(st))
        } else {
            End::Signal(libc::WTERMSIG(st))
        };
        if matches!(end, End::Exit(97 | 98)) {
            crate::harness_error(&format!("a simulated process could not run (status {end:?})"));
        }
        p.state = State::Done;
        p.ended = self.step;
        p.handles.clear();
        let s = format!("{end:?}");
        p.end = Some(end);
        self.note(i, format!("ends: {s}"));
    }

    fn note(&mut self, i: usize, s: String) {
        self.log.addn(i as u64);
        self.log.add(s.as_bytes());
        if self.trace.len() < 4000 {
            let who = if i == usize::MAX { "editor".to_string() } else { format!("P{i}") };
            self.trace.push(format!("#{} t={}us {who} {s}", self.step, self.now_ns / 1000));
        }
    }

    pub fn fault_fired(&mut self, i: usize, f: Fault) {
        let step = self.step;
        *self.fired.entry(f.name().to_string()).or_default() += 1;
        if let Some(p) = self.procs.get_mut(i) {
            p.faults.push((step, f));
        }
    }

    /// Run every added process to its end.  `check` looks at the world after each step.
    pub fn run(&mut self, ch: &mut Choices, check: &mut dyn FnMut(&mut World) -> Option<Violation>) -> Option<Violation> {
        let bytes = *self.to_read.get_or_insert_with(|| {
            let files: usize = self.fs.now.nodes.values().map(|n| n.size().max(0) as usize).sum();
            let pipes: usize = self.pipes.values().map(|p| p.data.len()).sum();
            let stdin: usize = self.procs.iter().map(|p| p.spec.stdin.data.len()).sum();
            (files + pipes + stdin) as u64
        });
        // who reads and writes byte by byte makes more requests
        let max_ops = self.max_ops.saturating_add(4 * bytes);
        loop {
            for i in 0..self.procs.len() {
                if self.procs[i].state == State::Running {
                    self.settle(i);
                }
            }
            let live: Vec<usize> = (0..self.procs.len())
                .filter(|i| matches!(self.procs[*i].state, State::Waiting | State::Blocked))
                .filter(|i| !self.blocked_on_lock(*i))
                .collect();
            let step = self.step;
            let mut cand: Vec<usize> = live.iter().copied().filter(|i| self.procs[*i].stopped <= step).collect();
            if cand.is_empty() {
                // who was stopped for a while goes on
                let next = live.iter().map(|i| self.procs[*i].stopped).filter(|s| *s != u64::MAX).min();
                cand = live.iter().copied().filter(|i| Some(self.procs[*i].stopped) == next).collect();
            }
            if cand.is_empty() {
                let waits = self.procs.iter().any(|p| p.state == State::Blocked && p.stopped != u64::MAX);
                let stopped = self.procs.iter().any(|p| p.state == State::Blocked && p.stopped == u64::MAX);
                self.kill_all();
                if waits && stopped {
                    return violation("held-up", "a process waits for a lock that a stopped process holds");
                }
                if waits {
                    return violation("deadlock", "every process waits for a lock");
                }
                break;
            }
            // 0 keeps the process that ran last going
            let pos = cand.iter().position(|c| *c == self.last).unwrap_or(0);
            let pick = if cand.len() > 1 {
                let d = ch.draw(Kind::Schedule, cand.len() as u32 + 1) as usize;
                // half of the extra weight goes to staying
                cand[(pos + d.saturating_sub(1)) % cand.len()]
            } else {
                cand[0]
            };
            if pick != self.last {
                self.switches += 1;
            }
            self.last = pick;
            self.step += 1;
            self.now_ns += 20_000;
            if self.procs[pick].state == State::Waiting {
                self.note(pick, format!("starts: {:?} in {}", self.procs[pick].spec.args, self.procs[pick].spec.cwd));
                self.spawn(pick);
            } else {
                self.serve(pick, ch);
            }
            if let Some(v) = check(self) {
                self.kill_all();
                return Some(v);
            }
            if let Some(e) = &self.escaped {
                let e = e.clone();
                self.kill_all();
                return violation("escape", e);
            }
            if self.hung {
                self.kill_all();
                return violation("deadlock", "a process waits for itself");
            }
            // What is written to standard error is as long as the document and the filter make it.
            if self.procs.iter().any(|p| {
                p.state != State::Done && (p.yields > max_ops.saturating_mul(5) || p.ops.saturating_sub(p.err.writes.into()) > max_ops || u64::from(p.err.writes) > max_ops.saturating_mul(10))
            }) {
                self.kill_all();
                return violation("no-progress", format!("a process made more than {max_ops} requests"));
            }
        }
        if self.procs.iter().any(|p| p.end == Some(End::Signal(libc::SIGXCPU))) {
            return violation("no-progress", "a process computed for 15 seconds without ending");
        }
        None
    }

    pub fn kill_all(&mut self) {
        for i in 0..self.procs.len() {
            if matches!(self.procs[i].state, State::Running | State::Blocked) {
                self.reap(i, true);
            } else if self.procs[i].state == State::Waiting {
                self.procs[i].state = State::Done;
                self.procs[i].end = Some(End::Killed);
            }
        }
    }

    fn blocked_on_lock(&self, i: usize) -> bool {
        let p = &self.procs[i];
        let Some(r) = &p.req else { return false };
        if r.op != op::FLOCK || r.a[1] & 4 != 0 || r.a[1] & 8 != 0 {
            return false;
        }
        let Some(Some(h)) = p.handles.get(r.a[0] as usize) else { return false };
        let ino = h.borrow().ino;
        self.lock_held_elsewhere(h, ino)
    }
    fn lock_held_elsewhere(&self, me: &Rc<RefCell<OpenFile>>, ino: Option<Ino>) -> bool {
        self.procs.iter().flat_map(|q| q.handles.iter().flatten()).any(|o| {
            !Rc::ptr_eq(o, me) && {
                let o = o.borrow();
                o.locked && o.ino == ino
            }
        })
    }

    fn respond(&mut self, i: usize, ret: R, data: &[u8]) {
        let (r, e) = match ret {
            Ok(v) => (v, 0),
            Err(e) => (-1, e),
        };
        let p = &mut self.procs[i];
        let mut buf = Vec::with_capacity(16 + data.len());
        buf.extend_from_slice(&r.to_le_bytes());
        buf.extend_from_slice(&e.to_le_bytes());
        buf.extend_from_slice(&(data.len() as u32).to_le_bytes());
        buf.extend_from_slice(&self.now_ns.to_le_bytes());
        buf.extend_from_slice(data);
        p.state = State::Running;
        p.req = None;
        if !send_exact(p.sock, &buf) {
            self.reap(i, false);
        }
    }

    fn handle(&self, i: usize, h: i64) -> Result<Rc<RefCell<OpenFile>>, i32> {
        self.procs[i].handles.get(h as usize).and_then(|x| x.clone()).ok_or(libc::EBADF)
    }
    fn new_handle(&mut self, i: usize, f: OpenFile) -> i64 {
        let p = &mut self.procs[i];
        p.handles.push(Some(Rc::new(RefCell::new(f))));
        p.handles.len() as i64 - 1
    }

    fn may(&self, uid: u32, ino: Ino, want: u32) -> bool {
        if uid == 0 {
            return true;
        }
        let n = &self.fs.now.nodes[&ino];
        let bits = if n.uid == uid {
            n.mode >> 6
        } else if n.gid == uid {
            n.mode >> 3
        } else {
            n.mode
        };
        bits & want == want
    }

    fn base(&self, i: usize, dir: i64) -> Result<String, i32> {
        match dir {
            -100 => Ok(self.procs[i].cwd.clone()),
            -101 => Err(libc::EBADF),
            h => Ok(self.handle(i, h)?.borrow().path.clone()),
        }
    }

    /// Resolve a path as a process sees it.
    fn walk(&self, i: usize, dir: i64, path: &str, follow: bool) -> Result<Walk, i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let uid = self.procs[i].spec.uid;
        let full = if path.starts_with('/') { path.to_string() } else { format!("{}/{path}", self.base(i, dir)?) };
        let mut todo: Vec<String> = full.split('/').filter(|s| !s.is_empty()).rev().map(String::from).collect();
        let must_dir = path.ends_with('/') || path.ends_with("/.");
        let mut stack: Vec<(Ino, String)> = vec![(ROOT, String::new())];
        let mut hops = 0;
        let canon = |stack: &[(Ino, String)], last: Option<&str>| {
            let mut s: String = stack.iter().skip(1).map(|(_, n)| format!("/{n}")).collect();
            if let Some(l) = last {
                s.push('/');
                s.push_str(l);
            }
            if s.is_empty() {
                s.push('/');
            }
            s
        };
        while let Some(part) = todo.pop() {
            let cur = stack.last().map(|x| x.0).unwrap_or(ROOT);
            if !self.fs.now.nodes[&cur].is_dir() {
                return Err(libc::ENOTDIR);
            }
            if !self.may(uid, cur, 1) {
                return Err(libc::EACCES);
            }
            if part == "." {
                continue;
            }
            if part == ".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                continue;
            }
            if part.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            let last = todo.is_empty();
            let Some(n) = self.fs.now.lookup(cur, &part) else {
                if last {
                    if must_dir && !follow {
                        return Err(libc::ENOENT);
                    }
                    let canonical = canon(&stack, Some(&part));
                    return Ok(Walk { parent: cur, name: part, ino: None, canonical });
                }
                return Err(libc::ENOENT);
            };
            if let Node::Symlink(t) = &self.fs.now.nodes[&n].node {
                if !last || follow || must_dir {
                    hops += 1;
                    if hops > 40 {
                        return Err(libc::ELOOP);
                    }
                    if t.starts_with('/') {
                        stack.truncate(1);
                    }
                    for s in t.split('/').filter(|s| !s.is_empty()).rev() {
                        todo.push(s.to_string());
                    }
                    continue;
                }
            }
            if last {
                if must_dir && !self.fs.now.nodes[&n].is_dir() {
                    return Err(libc::ENOTDIR);
                }
                let canonical = canon(&stack, Some(&part));
                return Ok(Walk { parent: cur, name: part, ino: Some(n), canonical });
            }
            stack.push((n, part));
        }
        let (ino, name) = stack.last().cloned().unwrap_or((ROOT, String::new()));
        let parent = if stack.len() > 1 { stack[stack.len() - 2].0 } else { ROOT };
        Ok(Walk { parent, name, ino: Some(ino), canonical: canon(&stack, None) })
    }

    fn stat_data(&self, ino: Ino) -> Vec<u8> {
        let n = &self.fs.now.nodes[&ino];
        let v = [
            i64::from(n.dev),
            ino as i64,
            i64::from(n.mode),
            self.fs.now.links(ino).max(1),
            i64::from(n.uid),
            i64::from(n.gid),
            n.size(),
            n.mtime,
        ];
        v.iter().flat_map(|x| x.to_le_bytes()).collect()
    }

    /// Decide whether a fault strikes this request.
    fn strike(&mut self, r: &Req, i: usize, ch: &mut Choices) -> Option<Fault> {
        if self.plan.enabled.is_empty() || (self.plan.budget == 0 && self.plan.stuck.is_empty()) {
            return None;
        }
        let std_write = r.op == op::WRITE && matches!(self.std_of(i, r.a[0]), Some(1 | 2));
        let applicable: Vec<Fault> = self
            .plan
            .enabled
            .iter()
            .copied()
            .filter(|f| match f {
                Fault::OpenErr => r.op == op::OPEN,
                Fault::ReadErr => matches!(r.op, op::READ | op::READDIR),
                Fault::ShortRead => r.op == op::READ && r.a[1] > 1,
                Fault::WriteErr | Fault::DiskFull => {
                    (r.op == op::WRITE && !std_write) || matches!(r.op, op::FTRUNCATE | op::TRUNCATE)
                }
                Fault::TornWrite => r.op == op::WRITE && !std_write && r.data.len() > 1,
                Fault::ShortWrite => r.op == op::WRITE && r.data.len() > 1,
                Fault::StdoutErr => r.op == op::WRITE && self.std_of(i, r.a[0]) == Some(1),
                Fault::StderrErr => r.op == op::WRITE && self.std_of(i, r.a[0]) == Some(2),
                Fault::SyncErr => r.op == op::FSYNC,
                Fault::MetaErr => matches!(
                    r.op,
                    op::RENAME | op::CHMOD | op::FCHMOD | op::CHOWN | op::FCHOWN | op::LINK | op::LINKFD | op::SYMLINK | op::MKDIR
                ),
                Fault::StatErr => {
                    matches!(r.op, op::STAT | op::FSTAT | op::READLINK | op::REALPATH | op::GETCWD | op::ACCESS)
                }
                Fault::UnlinkErr => r.op == op::UNLINK,
                Fault::CloseErr => r.op == op::CLOSE && self.std_of(i, r.a[0]).is_none(),
                Fault::Eintr => match r.op {
                    op::OPEN | op::READ | op::FSYNC | op::FTRUNCATE => true,
                    op::WRITE => !r.data.is_empty(),
                    _ => false,
                },
                Fault::Kill | Fault::PowerLoss => !matches!(r.op, op::HELLO | op::ALLOCFAIL),
                Fault::DiskDead => !matches!(r.op, op::HELLO | op::ALLOCFAIL) && !self.dead,
                Fault::Stop => self.procs.len() > 1 && self.procs[i].stopped == 0,
            })
            .collect();
        if applicable.is_empty() {
            return None;
        }
        if let Some(s) = self.plan.stuck.iter().find(|s| applicable.contains(&s.0)) {
            return Some(s.0);
        }
        if self.plan.budget == 0 {
            return None;
        }
        let rate = self.plan.rate;
        if !ch.chance(Kind::Fault, rate, 256) {
            return None;
        }
        let k = ch.draw(Kind::Fault, applicable.len() as u32) as usize;
        self.plan.budget -= 1;
        let f = applicable[k];
        if self.plan.sticky
            && !matches!(f, Fault::Eintr | Fault::Kill | Fault::PowerLoss | Fault::DiskDead | Fault::Stop | Fault::TornWrite | Fault::DiskFull)
        {
            self.plan.stuck.push((f, None));
        }
        Some(f)
    }

    fn std_of(&self, i: usize, h: i64) -> Option<u8> {
        self.procs[i].handles.get(h as usize)?.as_ref()?.borrow().std
    }

    fn serve(&mut self, i: usize, ch: &mut Choices) {
        let Some(r) = self.procs[i].req.clone() else { return };
        self.procs[i].ops += 1;
        if r.op == op::HELLO {
            let s = &self.procs[i].spec;
            let mut v: Vec<u8> = vec![];
            for x in [
                s.vpid,
                s.realtime_ns.saturating_add(self.now_ns),
                1_000_000_000 + self.now_ns,
                s.clock_step_ns,
                s.jump_every,
                s.jump_ns,
                s.random_seed as i64,
                s.alloc_fail_at,
                i64::from(s.alloc_fail_forever),
                s.alloc_pad,
                s.tty,
                s.columns,
                i64::from(s.dream != Dream::Nothing),
                i64::from(s.uid),
                s.cpus,
            ] {
                v.extend_from_slice(&x.to_le_bytes());
            }
            self.respond(i, Ok(0), &v);
            return;
        }
        if r.op == op::ALLOCFAIL {
            self.procs[i].alloc_failed = true;
            *self.fired.entry("allocation failure".into()).or_default() += 1;
            self.note(i, format!("allocation {} fails", r.a[0]));
            self.respond(i, Ok(0), &[]);
            return;
        }
        if r.op == op::HANG {
            self.note(i, "waits for something that nobody will do".into());
            self.hung = true;
            self.reap(i, true);
            return;
        }
        if r.op == op::YIELD {
            // not a request to the system
            self.procs[i].ops -= 1;
            self.procs[i].yields += 1;
            let k = self.thread_choice(r.a[0].clamp(0, 64) as u32, r.a[1].clamp(0, 64) as u32, ch);
            if k > 0 {
                self.note(i, format!("thread {k} of {}+{} takes its turn", r.a[0], r.a[1]));
            }
            self.respond(i, Ok(i64::from(k)), &[]);
            return;
        }
        if r.op == op::GETENV {
            let name = r.paths().0;
            let known = ["1", "20", "true", "0", "/sim/work", "", "x", "off", "10", "made-up", "/sim/work/docs/made-up.log", "/sim/work/docs/spare.md"];
            let v = if ch.sc(1, 2) { Some(*ch.pick(&known)) } else { None };
            self.note(i, format!("getenv({name}) = {v:?}"));
            self.probe("made-up environment variables");
            let v = v.map(|v| v.as_bytes());
            self.respond(i, Ok(i64::from(v.is_some())), v.unwrap_or_default());
            return;
        }
        if self.procs[i].spec.dream == Dream::Files {
            self.dream(i, &r, ch);
        }
        let what = self.describe(i, &r);
        let strike = self.strike(&r, i, ch);
        // the latency of the simulated device
        self.now_ns += match r.op {
            op::FSYNC | op::SYNC => 4_000_000,
            op::WRITE | op::READ => 30_000 + r.data.len() as i64 / 4,
            op::RENAME | op::UNLINK | op::OPEN => 60_000,
            op::SLEEP => r.a[0].clamp(0, 1 << 50),
            _ => 5_000,
        };
        let mut pre: Option<i32> = None;
        let mut limit: Option<usize> = None;
        if let Some(f) = strike {
            self.fault_fired(i, f);
            let errs: &[i32] = match f {
                Fault::OpenErr => {
                    if r.a[0] & libc::O_CREAT as i64 != 0 {
                        &[libc::ENOSPC, libc::EMFILE, libc::EIO, libc::EACCES, libc::EROFS, libc::EDQUOT, libc::ENOMEM]
                    } else if r.a[0] & 3 != 0 {
                        &[libc::EIO, libc::EMFILE, libc::EACCES, libc::EROFS, libc::ETXTBSY, libc::ENOMEM]
                    } else {
                        &[libc::EIO, libc::EMFILE, libc::EACCES, libc::ENFILE, libc::ENOMEM, libc::ESTALE]
                    }
                }
                Fault::ReadErr => &[libc::EIO, libc::ESTALE, libc::ETIMEDOUT],
                Fault::WriteErr => &[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG],
                Fault::SyncErr => &[libc::EIO, libc::ENOSPC, libc::EDQUOT],
                Fault::MetaErr => &[libc::EIO, libc::EPERM, libc::ENOSPC, libc::EACCES, libc::EROFS, libc::EBUSY],
                Fault::StatErr => &[libc::EIO, libc::ENOMEM, libc::EACCES, libc::ESTALE],
                Fault::UnlinkErr => &[libc::EIO, libc::EACCES, libc::EROFS, libc::EBUSY],
                Fault::CloseErr => &[libc::EIO, libc::EDQUOT, libc::ENOSPC],
                Fault::Eintr => &[libc::EINTR],
                Fault::StdoutErr => &[libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN, libc::EFBIG],
                Fault::StderrErr => &[libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN],
                _ => &[],
            };
            if !errs.is_empty() {
                let before = self.plan.stuck.iter().position(|s| s.0 == f);
                pre = match before.and_then(|k| self.plan.stuck[k].1) {
                    Some(e) => Some(e),
                    None => {
                        let k = ch.draw(Kind::Fault, errs.len() as u32) as usize;
                        if let Some(s) = before {
                            self.plan.stuck[s].1 = Some(errs[k]);
                            *self.fired.entry("error that stays".into()).or_default() += 1;
                        }
                        Some(errs[k])
                    }
                };
            }
            match f {
                Fault::ShortRead => limit = Some(1 + ch.draw(Kind::Fault, (r.a[1] as u32).saturating_sub(1).min(1 << 20)) as usize),
                Fault::ShortWrite | Fault::TornWrite => {
                    limit = Some(1 + ch.draw(Kind::Fault, r.data.len() as u32 - 1) as usize);
                    if f == Fault::TornWrite {
                        self.plan.torn = Some(*[libc::EIO, libc::ENOSPC].get(ch.draw(Kind::Fault, 2) as usize).unwrap_or(&5));
                    }
                }
                Fault::DiskFull => {
                    let used = self.fs.used();
                    let room = ch.draw(Kind::Fault, r.data.len().max(1) as u32) as usize;
                    self.fs.capacity = Some(used + room);
                }
                Fault::Stop => {
                    let k = ch.draw(Kind::Fault, 5);
                    self.procs[i].stopped = if k == 0 { u64::MAX } else { self.step + (2u64 << (2 * k)) };
                    self.note(i, format!("{what} !! stopped {}", if k == 0 { "for good" } else { "for a while" }));
                    // the call is served when the process goes on
                    return;
                }
                Fault::DiskDead => self.dead = true,
                Fault::SyncErr => {
                    if let Ok(h) = self.handle(i, r.a[0]) {
                        let ino = h.borrow().ino;
                        if let Some(ino) = ino {
                            self.fs.sync_failed(ino);
                        }
                    }
                }
                Fault::CloseErr => {
                    // the descriptor is gone all the same
                    self.procs[i].handles[r.a[0] as usize] = None;
                }
                Fault::Kill | Fault::PowerLoss => {
                    // before the call, in the middle of a write, or after it
                    match ch.draw(Kind::Fault, 3) {
                        0 => {}
                        1 if r.op == op::WRITE && r.data.len() > 1 => {
                            let n = 1 + ch.draw(Kind::Fault, r.data.len() as u32 - 1) as usize;
                            let _ = self.exec(i, &r, Some(n));
                        }
                        _ => {
                            let _ = self.exec(i, &r, None);
                        }
                    }
                    self.note(i, format!("{what} !! {}", f.name()));
                    if f == Fault::Kill {
                        self.reap(i, true);
                    } else {
                        self.lose_power(ch);
                    }
                    return;
                }
                _ => {}
            }
        }
        if pre.is_none() && r.op == op::READ {
            if let Some(e) = self.nothing_yet(i, &r, ch) {
                self.note(i, format!("{what} = {}  !! nothing there yet", e.map_or("0".into(), errno_name)));
                self.respond(i, e.map_or(Ok(0), Err), &[]);
                return;
            }
            match self.arrival(i, &r, ch) {
                Some(Ok(n)) => limit = Some(limit.unwrap_or(usize::MAX).min(n)),
                Some(Err(late)) => {
                    self.note(i, format!("{what}: nothing for {} us", late / 1000));
                    self.respond(i, Ok(-(1 << 60) - late), &[]);
                    return;
                }
                None => {}
            }
        }
        if pre.is_none() && r.op == op::WRITE && self.std_of(i, r.a[0]).is_none() && limit.is_none() {
            if let Some(e) = self.plan.torn.take() {
                pre = Some(e);
            }
        }
        if self.dead && pre.is_none() {
            let on_fs = match r.op {
                op::READ | op::WRITE | op::CLOSE | op::DUP | op::LSEEK | op::FCNTL => {
                    self.std_of(i, r.a[0]).is_none() && matches!(r.op, op::READ | op::WRITE)
                }
                op::SLEEP | op::UMASK => false,
                op::OPEN | op::STAT => !self.is_real(i, &r),
                _ => true,
            };
            if on_fs {
                pre = Some(libc::EIO);
            }
        }
        let (ret, data) = match pre {
            Some(e) => (Err(e), vec![]),
            None => self.exec(i, &r, limit),
        };
        let shown = match &ret {
            Ok(PASSTHROUGH) => "(real)".to_string(),
            Ok(v) => v.to_string(),
            Err(e) => errno_name(*e),
        };
        let mark = match strike {
            Some(f) => format!("  !! {}", f.name()),
            None if self.dead => "  !! disk dead".into(),
            None => String::new(),
        };
        self.note(i, format!("{what} = {shown}{mark}"));
        if !data.is_empty() {
            self.log.add(&data);
        }
        self.respond(i, ret, &data);
    }

    /// Which of the threads of a process goes on: one of the first `k` can, the other `m` only when the time is up
    /// that they want to wait.
    fn thread_choice(&mut self, k: u32, m: u32, ch: &mut Choices) -> u32 {
        *self.fired.entry("choice between threads of the program".into()).or_default() += 1;
        if m > 0 && (k == 0 || ch.draw(Kind::Schedule, 24) == 23) {
            return k + if m > 1 { ch.draw(Kind::Schedule, m) } else { 0 };
        }
        if k < 2 {
            return 0;
        }
        ch.draw(Kind::Schedule, k + 1).saturating_sub(1)
    }

    /// What a read that does not wait gets from a pipe on which nothing has arrived so far: the end, as long as
    /// nobody has opened a named pipe for writing, or an error.
    fn nothing_yet(&mut self, i: usize, r: &Req, ch: &mut Choices) -> Option<Option<i32>> {
        let h = self.handle(i, r.a[0]).ok()?;
        let h = h.borrow();
        if !self.plan.arrivals || h.flags & i64::from(libc::O_NONBLOCK) == 0 {
            return None;
        }
        let named = h.std.is_none();
        let pipe = match h.std {
            Some(0) => &mut self.procs[i].stdin,
            _ => h.ino.and_then(|n| self.pipes.get_mut(&n))?,
        };
        if pipe.pos == pipe.data.len() && pipe.err.is_none() || self.early_reads == 0 {
            return None;
        }
        let there = ch.draw(Kind::Fault, 3) == 0;
        if there {
            pipe.writer = true;
            return None;
        }
        self.early_reads -= 1;
        self.now_ns += 1_000_000;
        *self.fired.entry("read without waiting, before anything arrived".into()).or_default() += 1;
        if named && !pipe.writer && pipe.pos == 0 && ch.draw(Kind::Fault, 2) == 0 {
            return Some(None);
        }
        pipe.writer = true;
        Some(Some(libc::EAGAIN))
    }

    /// How much of what is still to come has arrived on the pipe this request reads.
    fn arrival(&mut self, i: usize, r: &Req, ch: &mut Choices) -> Option<Result<usize, i64>> {
        if !self.plan.arrivals {
            return None;
        }
        let h = self.handle(i, r.a[0]).ok()?;
        let h = h.borrow();
        let left = match (h.std, h.ino.and_then(|n| self.pipes.get(&n))) {
            (Some(0), _) => self.procs[i].stdin.data.len() - self.procs[i].stdin.pos,
            (_, Some(p)) => p.data.len() - p.pos,
            _ => return None,
        };
        if left == 0 {
            return None;
        }
        match ch.draw(Kind::Fault, 4) {
            0 => None,
            k => {
                *self.fired.entry("bytes arrive in pieces".into()).or_default() += 1;
                // a[4]: a thread has waited for it already
                if r.a[4] == 0 && ch.draw(Kind::Fault, 3) == 2 {
                    let late = 1 + i64::from(ch.draw(Kind::Fault, 1 << 30)) * 1000;
                    *self.fired.entry("late arrival".into()).or_default() += 1;
                    // a[3]: the process has other threads that can go on meanwhile
                    if r.a[3] != 0 {
                        // all in all not so long that counting the milliseconds never ends
                        let late = late.min(self.patience / 2 + 1);
                        self.patience -= late;
                        return Some(Err(late));
                    }
                    self.now_ns += late;
                }
                let most = [1, 4, 64, left as u32][k as usize];
                Some(Ok(1 + ch.draw(Kind::Fault, most) as usize))
            }
        }
    }

    /// A file the program looks for and nobody put there may exist all the same.
    fn dream(&mut self, i: usize, r: &Req, ch: &mut Choices) {
        let dir = match r.op {
            op::OPEN if r.a[0] & i64::from(libc::O_CREAT) == 0 && r.a[0] & 3 == 0 => r.a[2],
            op::STAT | op::ACCESS => r.a[1],
            _ => return,
        };
        let (p, _) = r.paths();
        if p.starts_with('/') && real_readonly(&p) {
            return;
        }
        let Ok(w) = self.walk(i, dir, &p, true) else { return };
        if w.ino.is_some() || self.dreamt.len() > 5 || self.dreamt.contains(&w.canonical) || w.name.is_empty() {
            return;
        }
        self.dreamt.push(w.canonical.clone());
        if !ch.sc(2, 3) {
            return;
        }
        let text: &str = *ch.pick(&[
            "max_width = 10\nmax-width = 10\nreflow_text = true\nreflow-text = true\nreflow = true\nwidth = 10\n",
            "root = true\n[*.md]\nmax_line_length = 10\n[*]\nmax_line_length = 10\n",
            "{ \"max_width\": 10, \"reflow_text\": true, \"MD013\": { \"line_length\": 10 } }\n",
            "max_width: 10\nreflow_text: true\nMD013:\n  line_length: 10\n",
            "10\n",
            "",
        ]);
        let uid = self.procs[i].spec.uid;
        self.fs.add_file(&w.canonical, text.as_bytes(), 0o644, uid);
        self.probe("made-up files");
        self.note(i, format!("(from here on {} exists)", w.canonical));
    }

    fn is_real(&self, i: usize, r: &Req) -> bool {
        let _ = i;
        let (p, _) = r.paths();
        p.starts_with('/') && real_readonly(&p)
    }

    pub fn lose_power(&mut self, ch: &mut Choices) {
        for i in 0..self.procs.len() {
            if matches!(self.procs[i].state, State::Running | State::Blocked) {
                self.reap(i, true);
            } else if self.procs[i].state == State::Waiting {
                self.procs[i].state = State::Done;
                self.procs[i].end = Some(End::Killed);
            }
        }
        let pre = self.fs.prefixes();
        // 0: everything written so far survives
        let k = pre.len() - 1 - ch.draw(Kind::Fault, pre.len() as u32) as usize;
        let loss = match ch.draw(Kind::Fault, 4) {
            0 => DataLoss::All,
            1 => DataLoss::None,
            2 => DataLoss::Zeros,
            _ => DataLoss::Some(u64::from(ch.draw(Kind::Fault, 1 << 20))),
        };
        self.trace.push(format!("   power returns: metadata {}/{} kept, unsynced data: {loss:?}", pre[k], self.fs.log.len()));
        self.fs.power_loss(pre[k], loss);
        self.power_lost = true;
    }

    fn describe(&self, i: usize, r: &Req) -> String {
        let n = NAMES.get(r.op as usize).unwrap_or(&"?");
        let hname = |h: i64| match self.handle(i, h) {
            Ok(f) => match f.borrow().std {
                Some(s) => ["<stdin>", "<stdout>", "<stderr>"][s as usize].to_string(),
                None => f.borrow().path.clone(),
            },
            Err(_) => format!("bad handle {h}"),
        };
        match r.op {
            op::OPEN => {
                let (p, _) = r.paths();
                let f = r.a[0];
                let mut s = String::from(["r", "w", "rw", "?"][(f & 3) as usize]);
                for (bit, c) in [(libc::O_CREAT, "+create"), (libc::O_EXCL, "+excl"), (libc::O_TRUNC, "+trunc"), (libc::O_APPEND, "+append")] {
                    if f & i64::from(bit) != 0 {
                        s.push_str(c);
                    }
                }
                format!("open({p}, {s})")
            }
            op::READ => format!("read({}, {})", hname(r.a[0]), r.a[1]),
            op::WRITE => format!("write({}, {} bytes)", hname(r.a[0]), r.data.len()),
            op::CLOSE | op::FSYNC | op::FSTAT | op::FLOCK | op::DUP | op::LSEEK | op::READDIR => format!("{n}({})", hname(r.a[0])),
            op::FTRUNCATE => format!("ftruncate({}, {})", hname(r.a[0]), r.a[1]),
            op::FCHMOD => format!("fchmod({}, {:o})", hname(r.a[0]), r.a[1]),
            op::FCHOWN => format!("fchown({}, {}, {})", hname(r.a[0]), r.a[1], r.a[2]),
            op::CHMOD => format!("chmod({}, {:o})", r.paths().0, r.a[0]),
            op::RENAME | op::LINK | op::SYMLINK => {
                let (a, b) = r.paths();
                format!("{n}({a}, {b})")
            }
            _ => format!("{n}({})", r.paths().0),
        }
    }

    /// Perform a request on the simulated system.
    fn exec(&mut self, i: usize, r: &Req, limit: Option<usize>) -> (R, Vec<u8>) {
        match self.exec_inner(i, r, limit) {
            Ok((v, d)) => (Ok(v), d),
            Err(e) => (Err(e), vec![]),
        }
    }

    fn exec_inner(&mut self, i: usize, r: &Req, limit: Option<usize>) -> Result<(i64, Vec<u8>), i32> {
        let uid = self.procs[i].spec.uid;
        let ok = |v: i64| Ok((v, vec![]));
        match r.op {
            op::OPEN => {
                let (p, _) = r.paths();
                self.open(i, &p, r.a[0], r.a[1] as u32, r.a[2]).map(|v| (v, vec![]))
            }
            op::CLOSE => {
                let h = r.a[0] as usize;
                if self.procs[i].handles.get(h).is_none_or(|x| x.is_none()) {
                    return Err(libc::EBADF);
                }
                self.procs[i].handles[h] = None;
                ok(0)
            }
            op::DUP => {
                let h = self.handle(i, r.a[0])?;
                self.procs[i].handles.push(Some(h));
                ok(self.procs[i].handles.len() as i64 - 1)
            }
            op::READ => {
                let h = self.handle(i, r.a[0])?;
                let mut f = h.borrow_mut();
                let want = (r.a[1] as usize).min(limit.unwrap_or(usize::MAX));
                let ino = f.ino;
                let pipe = match f.std {
                    Some(0) => Some(&mut self.procs[i].stdin),
                    _ => ino.and_then(|n| self.pipes.get_mut(&n)),
                };
                if let Some(p) = pipe {
                    p.reads += 1;
                    if !f.readable {
                        return Err(libc::EBADF);
                    }
                    let end = (p.pos + want).min(p.data.len());
                    let d = p.data[p.pos..end].to_vec();
                    p.pos = end;
                    if d.is_empty() && want > 0 {
                        if let Some(e) = p.err {
                            return Err(e);
                        }
                    }
                    return Ok((d.len() as i64, d));
                }
                if !f.readable || f.std.is_some() {
                    return Err(libc::EBADF);
                }
                let ino = f.ino.ok_or(libc::EBADF)?;
                let Some(d) = self.fs.now.file(ino) else {
                    return if self.fs.now.nodes[&ino].is_dir() { Err(libc::EISDIR) } else { Ok((0, vec![])) };
                };
                let off = if r.a[2] >= 0 { r.a[2] as usize } else { f.off };
                let a = off.min(d.len());
                let b = (a + want).min(d.len());
                let out = d[a..b].to_vec();
                if r.a[2] < 0 {
                    f.off = b.max(f.off);
                }
                self.procs[i].read_bytes += out.len() as u64;
                Ok((out.len() as i64, out))
            }
            op::WRITE => {
                let h = self.handle(i, r.a[0])?;
                let mut f = h.borrow_mut();
                let n = r.data.len().min(limit.unwrap_or(usize::MAX));
                let data = &r.data[..n];
                if let Some(s) = f.std {
                    let p = &mut self.procs[i];
                    let sink = match s {
                        1 => &mut p.out,
                        2 => &mut p.err,
                        _ => return Err(libc::EBADF),
                    };
                    sink.writes += 1;
                    let room = sink.limit.map_or(usize::MAX, |l| l.saturating_sub(sink.accepted.len()));
                    if room == 0 && !data.is_empty() {
                        sink.failed = true;
                        return Err(sink.err);
                    }
                    let k = data.len().min(room);
                    sink.accepted.extend_from_slice(&data[..k]);
                    return Ok((k as i64, vec![]));
                }
                if !f.writable {
                    return Err(libc::EBADF);
                }
                let ino = f.ino.ok_or(libc::EBADF)?;
                let Some(len) = self.fs.now.file(ino).map(|d| d.len()) else {
                    return if self.fs.now.nodes[&ino].is_dir() { Err(libc::EISDIR) } else { Ok((n as i64, vec![])) };
                };
                let off = if r.a[2] >= 0 {
                    r.a[2] as usize
                } else if f.append {
                    len
                } else {
                    f.off
                };
                let mut k = data.len();
                if let Some(cap) = self.fs.capacity {
                    let used = self.fs.used();
                    let grow = (off + k).saturating_sub(len);
                    let room = cap.saturating_sub(used);
                    if grow > room {
                        let fit = k - (grow - room).min(k);
                        if fit == 0 && k > 0 {
                            return Err(libc::ENOSPC);
                        }
                        k = fit;
                    }
                }
                self.fs.run(Op::Write { ino, off, bytes: Rc::new(data[..k].to_vec()) });
                let now = WALL_NS + self.now_ns;
                if let Some(n) = self.fs.now.nodes.get_mut(&ino) {
                    n.mtime = now;
                }
                if r.a[2] < 0 {
                    f.off = off + k;
                }
                Ok((k as i64, vec![]))
            }
            op::LSEEK => {
                let h = self.handle(i, r.a[0])?;
                let mut f = h.borrow_mut();
                let ino = f.ino.ok_or(libc::ESPIPE)?;
                if self.pipes.contains_key(&ino) {
                    return Err(libc::ESPIPE);
                }
                let len = self.fs.now.nodes[&ino].size();
                let pos = match r.a[2] as i32 {
                    libc::SEEK_SET => r.a[1],
                    libc::SEEK_CUR => f.off as i64 + r.a[1],
                    libc::SEEK_END => len + r.a[1],
                    _ => return Err(libc::EINVAL),
                };
                if pos < 0 {
                    return Err(libc::EINVAL);
                }
                f.off = pos as usize;
                ok(pos)
            }
            op::FSYNC => {
                let h = self.handle(i, r.a[0])?;
                let ino = h.borrow().ino.ok_or(libc::EINVAL)?;
                self.fs.sync(ino);
                ok(0)
            }
            op::SYNC => {
                self.fs.sync_all();
                ok(0)
            }
            op::FTRUNCATE => {
                let h = self.handle(i, r.a[0])?;
                let f = h.borrow();
                if !f.writable {
                    return Err(libc::EINVAL);
                }
                let ino = f.ino.ok_or(libc::EINVAL)?;
                self.fs.now.file(ino).ok_or(libc::EINVAL)?;
                self.fs.run(Op::Truncate { ino, len: r.a[1] as usize });
                ok(0)
            }
            op::TRUNCATE => {
                let (p, _) = r.paths();
                let w = self.walk(i, -100, &p, true)?;
                let ino = w.ino.ok_or(libc::ENOENT)?;
                if !self.may(uid, ino, 2) {
                    return Err(libc::EACCES);
                }
                self.fs.now.file(ino).ok_or(libc::EISDIR)?;
                self.fs.run(Op::Truncate { ino, len: r.a[0] as usize });
                ok(0)
            }
            op::STAT => {
                let (p, _) = r.paths();
                if matches!(p.as_str(), "/dev/stdin" | "/dev/fd/0" | "/proc/self/fd/0") && r.a[0] == 0 {
                    return self.exec_inner(i, &Req { op: op::FSTAT, a: [0; 5], data: vec![] }, None);
                }
                if p.starts_with('/') && real_readonly(&p) {
                    return ok(PASSTHROUGH);
                }
                let w = self.walk(i, r.a[1], &p, r.a[0] == 0)?;
                let ino = w.ino.ok_or(libc::ENOENT)?;
                Ok((0, self.stat_data(ino)))
            }
            op::FSTAT => {
                let h = self.handle(i, r.a[0])?;
                let f = h.borrow();
                match (f.std, f.ino) {
                    (_, Some(ino)) => Ok((0, self.stat_data(ino))),
                    (Some(s), _) => {
                        let p = &self.procs[i];
                        let chardev = p.spec.tty >> s & 1 == 1 || match s {
                            1 => p.out.chardev,
                            2 => p.err.chardev,
                            _ => false,
                        };
                        let mode = if chardev { S_IFCHR } else { S_IFIFO } | 0o600;
                        let v = [9i64, 1, i64::from(mode), 1, 0, 0, 0, 0];
                        Ok((0, v.iter().flat_map(|x| x.to_le_bytes()).collect()))
                    }
                    _ => Err(libc::EBADF),
                }
            }
            op::CHMOD | op::FCHMOD => {
                let (ino, mode) = if r.op == op::CHMOD {
                    let (p, _) = r.paths();
                    self.guard(&p);
                    (self.walk(i, r.a[1], &p, true)?.ino.ok_or(libc::ENOENT)?, r.a[0])
                } else {
                    (self.handle(i, r.a[0])?.borrow().ino.ok_or(libc::EPERM)?, r.a[1])
                };
                let n = &self.fs.now.nodes[&ino];
                if uid != 0 && n.uid != uid {
                    return Err(libc::EPERM);
                }
                self.fs.run(Op::Chmod { ino, mode: mode as u32 });
                ok(0)
            }
            op::CHOWN | op::FCHOWN => {
                let (ino, u, g) = if r.op == op::CHOWN {
                    let (p, _) = r.paths();
                    self.guard(&p);
                    (self.walk(i, r.a[2], &p, true)?.ino.ok_or(libc::ENOENT)?, r.a[0], r.a[1])
                } else {
                    (self.handle(i, r.a[0])?.borrow().ino.ok_or(libc::EPERM)?, r.a[1], r.a[2])
                };
                let n = self.fs.now.nodes[&ino].clone();
                let nu = if u == -1 { n.uid } else { u as u32 };
                let ng = if g == -1 { n.gid } else { g as u32 };
                if uid != 0 && (nu != n.uid || n.uid != uid || (ng != n.gid && ng != uid)) {
                    return Err(libc::EPERM);
                }
                let mut mode = n.mode;
                if mode & S_IFMT == S_IFREG {
                    mode &= if mode & 0o010 != 0 { !0o6000 } else { !0o4000 };
                }
                self.fs.run(Op::Chown { ino, uid: nu, gid: ng, mode });
                ok(0)
            }
            op::RENAME => {
                let (p, q) = r.paths();
                self.guard(&p);
                self.guard(&q);
                let a = self.walk(i, r.a[0], &p, false)?;
                let b = self.walk(i, r.a[1], &q, false)?;
                let ai = a.ino.ok_or(libc::ENOENT)?;
                let flags = r.a[2];
                if flags & 1 != 0 && b.ino.is_some() {
                    return Err(libc::EEXIST);
                }
                self.may_edit(uid, a.parent, ai)?;
                if let Some(bi) = b.ino {
                    self.may_edit(uid, b.parent, bi)?;
                } else if !self.may(uid, b.parent, 3) {
                    return Err(libc::EACCES);
                }
                let dev = |x: Ino| self.fs.now.nodes[&x].dev;
                if dev(a.parent) != dev(b.parent) {
                    return Err(libc::EXDEV);
                }
                if let Some(bi) = b.ino {
                    let (ad, bd) = (self.fs.now.nodes[&ai].is_dir(), self.fs.now.nodes[&bi].is_dir());
                    if flags & 2 == 0 {
                        if ad && !bd {
                            return Err(libc::ENOTDIR);
                        }
                        if bd && !ad {
                            return Err(libc::EISDIR);
                        }
                        if ai == bi {
                            return ok(0);
                        }
                    }
                } else if flags & 2 != 0 {
                    return Err(libc::ENOENT);
                }
                self.fs.run(Op::Rename { dir: a.parent, name: a.name, to_dir: b.parent, to_name: b.name, exchange: flags & 2 != 0 });
                ok(0)
            }
            op::LINK | op::LINKFD => {
                let (ino, q, dq) = if r.op == op::LINK {
                    let (p, q) = r.paths();
                    self.guard(&p);
                    (self.walk(i, r.a[0], &p, r.a[2] & 0x400 != 0)?.ino.ok_or(libc::ENOENT)?, q, r.a[1])
                } else {
                    (self.handle(i, r.a[0])?.borrow().ino.ok_or(libc::ENOENT)?, r.paths().0, r.a[1])
                };
                self.guard(&q);
                let b = self.walk(i, dq, &q, false)?;
                if b.ino.is_some() {
                    return Err(libc::EEXIST);
                }
                if !self.may(uid, b.parent, 3) {
                    return Err(libc::EACCES);
                }
                if self.fs.now.nodes[&ino].dev != self.fs.now.nodes[&b.parent].dev {
                    return Err(libc::EXDEV);
                }
                if self.fs.now.nodes[&ino].is_dir() {
                    return Err(libc::EPERM);
                }
                self.fs.run(Op::Link { dir: b.parent, name: b.name, ino });
                ok(0)
            }
            op::SYMLINK | op::MKDIR => {
                let (p, q) = r.paths();
                let (path, node, mode, dir) = if r.op == op::SYMLINK {
                    (q, Node::Symlink(p), S_IFLNK | 0o777, r.a[0])
                } else {
                    (p, Node::Dir(BTreeMap::new()), S_IFDIR | (r.a[0] as u32 & 0o7777 & !self.procs[i].umask), r.a[1])
                };
                self.guard(&path);
                let w = self.walk(i, dir, &path, false)?;
                if w.ino.is_some() {
                    return Err(libc::EEXIST);
                }
                if !self.may(uid, w.parent, 3) {
                    return Err(libc::EACCES);
                }
                self.create(i, &w, node, mode);
                ok(0)
            }
            op::UNLINK => {
                let (p, _) = r.paths();
                self.guard(&p);
                let w = self.walk(i, r.a[1], &p, false)?;
                let ino = w.ino.ok_or(libc::ENOENT)?;
                self.may_edit(uid, w.parent, ino)?;
                match (&self.fs.now.nodes[&ino].node, r.a[0] != 0) {
                    (Node::Dir(e), true) if !e.is_empty() => return Err(libc::ENOTEMPTY),
                    (Node::Dir(_), false) => return Err(libc::EISDIR),
                    (Node::Dir(_), true) => {}
                    (_, true) => return Err(libc::ENOTDIR),
                    _ => {}
                }
                self.fs.run(Op::Unlink { dir: w.parent, name: w.name });
                ok(0)
            }
            op::READLINK => {
                let (p, _) = r.paths();
                if p.starts_with('/') && real_readonly(&p) {
                    return ok(PASSTHROUGH);
                }
                let w = self.walk(i, r.a[0], &p, false)?;
                match &self.fs.now.nodes[&w.ino.ok_or(libc::ENOENT)?].node {
                    Node::Symlink(t) => {
                        let t = raw(t);
                        Ok((t.len() as i64, t))
                    }
                    _ => Err(libc::EINVAL),
                }
            }
            op::REALPATH => {
                let (p, _) = r.paths();
                if p.starts_with('/') && real_readonly(&p) {
                    return ok(PASSTHROUGH);
                }
                let w = self.walk(i, -100, &p, true)?;
                w.ino.ok_or(libc::ENOENT)?;
                Ok((0, raw(&w.canonical)))
            }
            op::GETCWD => Ok((0, raw(&self.procs[i].cwd))),
            op::CHDIR => {
                let (p, _) = r.paths();
                let w = self.walk(i, -100, &p, true)?;
                if !self.fs.now.nodes[&w.ino.ok_or(libc::ENOENT)?].is_dir() {
                    return Err(libc::ENOTDIR);
                }
                self.procs[i].cwd = w.canonical;
                ok(0)
            }
            op::READDIR => {
                let h = self.handle(i, r.a[0])?;
                let ino = h.borrow().ino.ok_or(libc::EBADF)?;
                let Node::Dir(e) = &self.fs.now.nodes[&ino].node else { return Err(libc::ENOTDIR) };
                match e.iter().nth(r.a[1] as usize) {
                    None => ok(0),
                    Some((k, v)) => {
                        let t = match self.fs.now.nodes[v].node {
                            Node::Dir(_) => 4,
                            Node::File(_) => 8,
                            Node::Symlink(_) => 10,
                            Node::Special => 1,
                        };
                        Ok(((*v as i64) << 8 | t, raw(k)))
                    }
                }
            }
            op::ACCESS => {
                let (p, _) = r.paths();
                if p.starts_with('/') && real_readonly(&p) {
                    return ok(PASSTHROUGH);
                }
                let w = self.walk(i, r.a[1], &p, true)?;
                let ino = w.ino.ok_or(libc::ENOENT)?;
                if r.a[0] == 0 || self.may(uid, ino, r.a[0] as u32 & 7) {
                    ok(0)
                } else {
                    Err(libc::EACCES)
                }
            }
            op::FLOCK => {
                let h = self.handle(i, r.a[0])?;
                if r.a[1] & 8 != 0 {
                    h.borrow_mut().locked = false;
                } else {
                    let ino = h.borrow().ino;
                    if r.a[1] & 4 != 0 && self.lock_held_elsewhere(&h, ino) {
                        return Err(libc::EWOULDBLOCK);
                    }
                    h.borrow_mut().locked = true;
                }
                ok(0)
            }
            op::UTIME => {
                let ino = if r.a[2] == 2 {
                    let h = self.handle(i, r.a[0])?;
                    let ino = h.borrow().ino;
                    ino
                } else {
                    let (p, _) = r.paths();
                    self.guard(&p);
                    Some(self.walk(i, r.a[0], &p, r.a[2] == 0)?.ino.ok_or(libc::ENOENT)?)
                };
                let Some(n) = ino.and_then(|ino| self.fs.now.nodes.get_mut(&ino)) else { return ok(0) };
                if uid != 0 && n.uid != uid {
                    return Err(libc::EPERM);
                }
                self.fs.touched = true;
                match r.a[1] {
                    i64::MIN => n.mtime = WALL_NS + self.now_ns,
                    t if t == i64::MIN + 1 => {}
                    t => n.mtime = t,
                }
                ok(0)
            }
            op::UMASK => {
                let old = self.procs[i].umask;
                self.procs[i].umask = r.a[0] as u32 & 0o777;
                ok(i64::from(old))
            }
            op::FCNTL => {
                let h = self.handle(i, r.a[0])?;
                if r.a[1] == i64::from(libc::F_GETFL) {
                    return ok(h.borrow().flags);
                }
                if r.a[1] == i64::from(libc::F_SETFL) {
                    let may = i64::from(libc::O_NONBLOCK | libc::O_APPEND);
                    let mut f = h.borrow_mut();
                    f.flags = f.flags & !may | r.a[2] & may;
                    f.append = f.flags & i64::from(libc::O_APPEND) != 0;
                }
                ok(0)
            }
            op::SLEEP => ok(0),
            _ => Err(libc::ENOSYS),
        }
    }

    /// Directory write permission, with the sticky bit.
    fn may_edit(&self, uid: u32, dir: Ino, ino: Ino) -> Result<(), i32> {
        if !self.may(uid, dir, 3) {
            return Err(libc::EACCES);
        }
        let d = &self.fs.now.nodes[&dir];
        if d.mode & 0o1000 != 0 && uid != 0 && d.uid != uid && self.fs.now.nodes[&ino].uid != uid {
            return Err(libc::EPERM);
        }
        Ok(())
    }

    /// Remember attempts to change the real system.
    fn guard(&mut self, path: &str) {
        if path.starts_with('/') && real_readonly(path) && !path.starts_with("/dev/") && !path.starts_with("/proc/self/") {
            self.escaped = Some(format!("the program tried to change {path}"));
        }
    }

    fn create(&mut self, i: usize, w: &Walk, node: Node, mode: u32) -> Ino {
        let ino = self.fs.fresh_ino();
        let uid = self.procs[i].spec.uid;
        let dev = self.fs.now.nodes[&w.parent].dev;
        let inode = Inode { node, mode, uid, gid: uid, dev, mtime: WALL_NS + self.now_ns };
        self.fs.run(Op::Create { dir: w.parent, name: w.name.clone(), ino, inode });
        ino
    }

    fn open(&mut self, i: usize, path: &str, flags: i64, mode: u32, dir: i64) -> R {
        let has = |b: i32| flags & i64::from(b) == i64::from(b);
        let acc = (flags & 3) as i32;
        let (readable, writable) = (acc != libc::O_WRONLY, acc != libc::O_RDONLY);
        // the standard streams by name
        for (n, h) in [("stdin", 0), ("stdout", 1), ("stderr", 2)] {
            if path == format!("/dev/{n}") || path == format!("/proc/self/fd/{h}") || path == format!("/dev/fd/{h}") {
                // another open file of the same stream
                let f = self.handle(i, h)?.borrow().clone();
                return Ok(self.new_handle(i, OpenFile { flags, ..f }));
            }
        }
        if path == "/dev/full" && writable {
            return Err(libc::ENOSPC);
        }
        if path.starts_with('/') && real_readonly(path) {
            if path == "/dev/null" || !(writable || has(libc::O_CREAT)) {
                return Ok(PASSTHROUGH);
            }
            self.guard(path);
            return Err(libc::EROFS);
        }
        let uid = self.procs[i].spec.uid;
        if flags & 0o20200000 == 0o20200000 {
            // O_TMPFILE
            let w = self.walk(i, dir, path, true)?;
            let d = w.ino.ok_or(libc::ENOENT)?;
            if !self.may(uid, d, 3) {
                return Err(libc::EACCES);
            }
            let ino = self.fs.fresh_ino();
            let m = S_IFREG | (mode & 0o7777 & !self.procs[i].umask);
            let dev = self.fs.now.nodes[&d].dev;
            let inode = Inode { node: Node::File(Rc::new(vec![])), mode: m, uid, gid: uid, dev, mtime: WALL_NS + self.now_ns };
            self.fs.run(Op::Anonymous { ino, inode });
            return Ok(self.new_handle(i, OpenFile { ino: Some(ino), std: None, off: 0, append: false, readable, writable, flags, path: w.canonical, locked: false }));
        }
        let w = self.walk(i, dir, path, !has(libc::O_NOFOLLOW) && !(has(libc::O_CREAT) && has(libc::O_EXCL)))?;
        let ino = match w.ino {
            Some(ino) => {
                if has(libc::O_CREAT) && has(libc::O_EXCL) {
                    return Err(libc::EEXIST);
                }
                let n = &self.fs.now.nodes[&ino];
                match &n.node {
                    Node::Symlink(_) => return Err(libc::ELOOP),
                    Node::Dir(_) if writable || has(libc::O_CREAT) => return Err(libc::EISDIR),
                    Node::Dir(_) => {}
                    _ if has(libc::O_DIRECTORY) => return Err(libc::ENOTDIR),
                    _ => {}
                }
                if (readable && !self.may(uid, ino, 4)) || (writable && !self.may(uid, ino, 2)) {
                    return Err(libc::EACCES);
                }
                if has(libc::O_TRUNC) && writable && self.fs.now.file(ino).is_some() {
                    self.fs.run(Op::Truncate { ino, len: 0 });
                }
                ino
            }
            None => {
                if !has(libc::O_CREAT) {
                    return Err(libc::ENOENT);
                }
                if !self.may(uid, w.parent, 3) {
                    return Err(libc::EACCES);
                }
                let m = S_IFREG | (mode & 0o7777 & !self.procs[i].umask);
                self.create(i, &w, Node::File(Rc::new(vec![])), m)
            }
        };
        Ok(self.new_handle(
            i,
            OpenFile { ino: Some(ino), std: None, off: 0, append: has(libc::O_APPEND), readable, writable, flags, path: w.canonical, locked: false },
        ))
    }

    /// A number that stands for everything that happened.
    pub fn signature(&self) -> u64 {
        mix(self.log.0, self.step)
    }
}

impl Drop for World {
    fn drop(&mut self) {
        self.kill_all();
    }
}

pub fn errno_name(e: i32) -> String {
    let n = match e {
        libc::ENOENT => "ENOENT",
        libc::EIO => "EIO",
        libc::EINTR => "EINTR",
        libc::EACCES => "EACCES",
        libc::EEXIST => "EEXIST",
        libc::ENOSPC => "ENOSPC",
        libc::EPERM => "EPERM",
        libc::EROFS => "EROFS",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::ENOMEM => "ENOMEM",
        libc::EPIPE => "EPIPE",
        libc::EAGAIN => "EAGAIN",
        libc::EXDEV => "EXDEV",
        libc::EDQUOT => "EDQUOT",
        libc::EFBIG => "EFBIG",
        libc::EISDIR => "EISDIR",
        libc::ENOTDIR => "ENOTDIR",
        libc::ESTALE => "ESTALE",
        libc::ENOSYS => "ENOSYS",
        libc::EBADF => "EBADF",
        _ => return format!("errno {e}"),
    };
    n.to_string()
}

fn socketpair() -> (RawFd, RawFd) {
    let mut v = [0i32; 2];
    // SAFETY: v has room for two descriptors
    if unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, v.as_mut_ptr()) } < 0 {
        crate::harness_error("socketpair failed");
    }
    (v[0], v[1])
}

fn recv_exact(fd: RawFd, mut buf: &mut [u8]) -> bool {
    while !buf.is_empty() {
        let r = unsafe { libc::recv(fd, buf.as_mut_ptr().cast(), buf.len(), libc::MSG_DONTWAIT) };
        if r > 0 {
            buf = &mut buf[r as usize..];
            continue;
        }
        if r == 0 {
            return false;
        }
        match std::io::Error::last_os_error().raw_os_error() {
            Some(libc::EINTR) => {}
            Some(libc::EAGAIN) => {
                let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
                let n = unsafe { libc::poll(&mut p, 1, 120_000) };
                if n == 0 {
                    crate::harness_error("a simulated process neither computed nor asked for anything for 120 s");
                }
            }
            _ => return false,
        }
    }
    true
}

fn send_exact(fd: RawFd, mut buf: &[u8]) -> bool {
    while !buf.is_empty() {
        let r = unsafe { libc::send(fd, buf.as_ptr().cast(), buf.len(), libc::MSG_NOSIGNAL) };
        if r <= 0 {
            if r < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {
                continue;
            }
            return false;
        }
        buf = &buf[r as usize..];
    }
    true
}
