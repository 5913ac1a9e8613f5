//! The runtime under the library simulations: real threads parked and released one at a time.  Who
//! runs next is decided at allocations, tracing events, callbacks, lock operations and yields; the
//! clock, the random source and sleeping are simulated too.

use crate::choice::{Choices, Kind};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, Ordering};

pub const MAX: usize = 16;

static ACTIVE: AtomicBool = AtomicBool::new(false);
static PARK: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];

thread_local! {
    /// which simulated thread this is
    static TID: Cell<i32> = const { Cell::new(-1) };
    /// host code is not preempted, library code is
    static HOST: Cell<u32> = const { Cell::new(1) };
    /// inside the scheduler itself
    static IN: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Free,
    Runnable,
    Futex { addr: usize, bits: u32, until: Option<i64> },
    Sleep(i64),
    Event(u32),
    Join(usize),
    Done,
}

pub struct Sched {
    pub st: [St; MAX],
    pub timed_out: [bool; MAX],
    /// slots in use
    pub n: usize,
    /// the threads of the host, which come first
    pub hosts: usize,
    pub cur: usize,
    gap: u64,
    shift: u32,
    /// preempt at every branch of the library and not only where it calls something
    fine: bool,
    /// how many switches a burst has left
    burst: u32,
    /// branches taken since the last switch
    alone: u64,
    pub ch: *mut Choices,
    pub points: u64,
    pub switches: u64,
    /// threads that the library started
    pub made: u64,
    pub blocked: u64,
    pub now_ns: i64,
    pub start_ns: i64,
    pub clock_step: i64,
    pub rand: u64,
    pub hash: crate::rng::Fnv,
    pub on_deadlock: fn() -> !,
    pub on_switch: fn(usize, usize, &'static str),
}

struct Global(std::cell::UnsafeCell<Sched>);
unsafe impl Sync for Global {}

fn no_deadlock() -> ! {
    crate::harness_error("deadlock outside of a simulation")
}
fn no_switch(_: usize, _: usize, _: &'static str) {}

static S: Global = Global(std::cell::UnsafeCell::new(Sched {
    st: [St::Free; MAX],
    timed_out: [false; MAX],
    n: 0,
    hosts: 0,
    cur: 0,
    gap: 0,
    shift: 0,
    fine: false,
    burst: 0,
    alone: 0,
    ch: std::ptr::null_mut(),
    points: 0,
    switches: 0,
    made: 0,
    blocked: 0,
    now_ns: 0,
    start_ns: 0,
    clock_step: 1000,
    rand: 0,
    hash: crate::rng::Fnv(0xcbf2_9ce4_8422_2325),
    on_deadlock: no_deadlock,
    on_switch: no_switch,
}));

/// Only the thread that holds the turn may use it.
pub fn s() -> &'static mut Sched {
    unsafe { &mut *S.0.get() }
}

unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack)
    );
    r
}

fn unpark(t: usize) {
    PARK[t].store(1, Ordering::SeqCst);
    unsafe { raw6(202, PARK[t].as_ptr() as i64, 129, 1, 0, 0, 0) };
}
fn park(t: usize) {
    while PARK[t].load(Ordering::SeqCst) == 0 {
        unsafe { raw6(202, PARK[t].as_ptr() as i64, 128, 0, 0, 0, 0) };
    }
    PARK[t].store(0, Ordering::SeqCst);
}

struct InSched(bool);
impl InSched {
    fn enter() -> Self {
        InSched(IN.with(|i| i.replace(true)))
    }
}
impl Drop for InSched {
    fn drop(&mut self) {
        IN.with(|i| i.set(self.0));
    }
}

fn draw(n: u32) -> u32 {
    unsafe { (*s().ch).draw(Kind::Schedule, n) }
}

fn draw_gap() -> u64 {
    let sc = s();
    if sc.n < 2 || sc.switches > 3000 {
        return 0;
    }
    let v = u64::from(draw(4096));
    if v == 0 {
        return 0;
    }
    if !sc.fine {
        return 1 + (v >> sc.shift);
    }
    // a while without a switch, then some close together
    if sc.burst == 0 {
        sc.burst = 1 + draw(24);
        return 1 + (v << (11 - sc.shift));
    }
    sc.burst -= 1;
    1 + (v >> sc.shift)
}

fn switch_to(t: usize, why: &'static str) {
    let sc = s();
    let me = sc.cur;
    if t == me {
        return;
    }
    sc.switches += 1;
    sc.alone = 0;
    sc.hash.addn(((me as u64) << 8) | t as u64);
    (sc.on_switch)(me, t, why);
    sc.cur = t;
    unpark(t);
    if sc.st[me] != St::Done {
        park(me);
    }
}

fn runnable() -> ([usize; MAX], usize) {
    let sc = s();
    let mut v = [0; MAX];
    let mut k = 0;
    // the current thread first, so that choosing 0 means staying
    for i in 0..sc.n {
        let t = (sc.cur + i) % sc.n;
        if sc.st[t] == St::Runnable {
            v[k] = t;
            k += 1;
        }
    }
    (v, k)
}

/// Whoever could run is slow, and a time limit that somebody waits for passes.
fn let_time_pass() {
    let sc = s();
    let mut w = [(0i64, 0usize); MAX];
    let mut k = 0;
    for t in 0..sc.n {
        if let St::Sleep(d) | St::Futex { until: Some(d), .. } = sc.st[t] {
            w[k] = (d, t);
            k += 1;
        }
    }
    if k == 0 || draw(24) != 23 {
        return;
    }
    let (d, t) = w[if k > 1 { draw(k as u32) as usize } else { 0 }];
    sc.now_ns = sc.now_ns.max(d);
    sc.timed_out[t] = true;
    sc.st[t] = St::Runnable;
}

/// The current thread cannot go on: run another one.
fn next(why: &'static str) {
    loop {
        let (v, k) = runnable();
        if k > 0 {
            let_time_pass();
            let (v, k) = if runnable().1 > k { runnable() } else { (v, k) };
            let i = if k > 1 { draw(k as u32) as usize } else { 0 };
            switch_to(v[i], why);
            return;
        }
        // nobody can run: let time pass until a timeout fires
        let sc = s();
        let mut best: Option<(i64, usize)> = None;
        for t in 0..sc.n {
            let d = match sc.st[t] {
                St::Sleep(d) => Some(d),
                St::Futex { until, .. } => until,
                _ => None,
            };
            if let Some(d) = d {
                if best.is_none_or(|b| d < b.0) {
                    best = Some((d, t));
                }
            }
        }
        let Some((d, t)) = best else { (sc.on_deadlock)() };
        sc.now_ns = sc.now_ns.max(d);
        sc.timed_out[t] = true;
        sc.st[t] = St::Runnable;
    }
}

fn sim() -> bool {
    ACTIVE.load(Ordering::Relaxed) && TID.try_with(|t| t.get() >= 0).unwrap_or(false) && !IN.with(|i| i.get())
}

/// A place where another thread may get its turn.
#[inline]
pub fn point() {
    if !ACTIVE.load(Ordering::Relaxed) {
        return;
    }
    point_slow();
}
/// A branch of the library.
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !ACTIVE.load(Ordering::Relaxed) {
        return;
    }
    let sc = s();
    if sc.fine {
        point_slow();
    }
    // nobody goes on for ever: what it waits for may be done by those who are waiting for their turn
    sc.alone += 1;
    if sc.alone > 4_000_000 {
        fair();
    }
    unsafe {
        let g = *guard as usize;
        if g != 0 {
            if let Some(m) = COVERED.get() {
                if g < m.1 {
                    *(m.0 as *mut u8).add(g) = 1;
                }
            }
        }
    }
}
/// Which branches were reached, shared with the parent.
pub static COVERED: std::sync::OnceLock<(usize, usize)> = std::sync::OnceLock::new();
pub static BRANCHES: AtomicU32 = AtomicU32::new(0);
#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = BRANCHES.fetch_add(1, Ordering::Relaxed) + 1;
        p = p.add(1);
    }
}

#[inline(never)]
#[cold]
fn fair() {
    s().alone = 0;
    if HOST.with(|h| h.get()) > 0 || !sim() {
        return;
    }
    let _g = InSched::enter();
    let (v, k) = runnable();
    if k > 1 {
        switch_to(v[1], "has had its turn");
    }
}

#[inline(never)]
fn point_slow() {
    if TID.try_with(|t| t.get()).unwrap_or(-1) < 0 || HOST.with(|h| h.get()) > 0 || IN.with(|i| i.get()) {
        return;
    }
    let _g = InSched::enter();
    let sc = s();
    sc.points += 1;
    if sc.gap == 0 {
        return;
    }
    sc.gap -= 1;
    if sc.gap > 0 {
        return;
    }
    sc.gap = draw_gap();
    let_time_pass();
    let (v, k) = runnable();
    if k > 1 {
        let i = draw(k as u32) as usize;
        switch_to(v[i], "preempted");
    }
}

/// Give the turn away, from host code.
pub fn host_yield() {
    if !sim() {
        return;
    }
    let _g = InSched::enter();
    let (v, k) = runnable();
    if k > 1 {
        let i = draw(k as u32) as usize;
        switch_to(v[i], "yields");
    }
}

fn block(st: St, why: &'static str) -> bool {
    let sc = s();
    let me = sc.cur;
    sc.timed_out[me] = false;
    sc.st[me] = st;
    sc.blocked += 1;
    next(why);
    s().timed_out[me]
}

/// Wait, in host code, until `event` is signalled.
pub fn wait_event(e: u32) {
    let _g = InSched::enter();
    block(St::Event(e), "waits in its callback");
}
pub fn signal_event(e: u32) {
    let sc = s();
    for t in 0..sc.n {
        if sc.st[t] == St::Event(e) {
            sc.st[t] = St::Runnable;
        }
    }
}

pub fn tid() -> usize {
    TID.with(|t| t.get()).max(0) as usize
}
pub fn is_sim_thread() -> bool {
    TID.with(|t| t.get()) >= 0
}

/// Runs library code: it may be preempted.
pub fn library<R>(f: impl FnOnce() -> R) -> R {
    let _g = Mode::set(0);
    f()
}
pub struct Mode(u32);
impl Mode {
    fn set(v: u32) -> Self {
        Mode(HOST.with(|h| h.replace(v)))
    }
    pub fn host() -> Self {
        Mode::set(1)
    }
}
impl Drop for Mode {
    fn drop(&mut self) {
        HOST.with(|h| h.set(self.0));
    }
}

/// Run one function per simulated thread to the end of all of them.
pub fn run(ch: *mut Choices, n: usize, on_deadlock: fn() -> !, on_switch: fn(usize, usize, &'static str), f: fn(usize)) {
    let sc = s();
    sc.n = n;
    sc.hosts = n;
    sc.ch = ch;
    sc.on_deadlock = on_deadlock;
    sc.on_switch = on_switch;
    sc.shift = [9, 6, 3, 0, 11][draw(5) as usize];
    sc.fine = n > 1 && draw(2) == 1;
    for t in 0..n {
        sc.st[t] = St::Runnable;
    }
    let mut hs = vec![];
    for t in 0..n {
        let h = std::thread::Builder::new()
            .stack_size(48 << 20)
            .spawn(move || {
                park(t);
                TID.with(|x| x.set(t as i32));
                f(t);
                let _g = InSched::enter();
                let sc = s();
                sc.st[t] = St::Done;
                TID.with(|x| x.set(-1));
                // threads that the library left behind do not matter any more
                if sc.st[..sc.hosts].iter().any(|x| *x != St::Done) {
                    next("is done");
                }
            })
            .unwrap_or_else(|e| crate::harness_error(&format!("cannot start a thread: {e}")));
        hs.push(h);
    }
    sc.gap = draw_gap();
    sc.cur = draw(n as u32) as usize;
    ACTIVE.store(true, Ordering::SeqCst);
    unpark(sc.cur);
    for h in hs {
        if h.join().is_err() {
            crate::harness_error("a simulated thread panicked");
        }
    }
    ACTIVE.store(false, Ordering::SeqCst);
}

// ------------------------------------------------------------------ threads that the library starts

struct Made {
    handle: libc::pthread_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    x: *mut libc::c_void,
    detached: bool,
    /// its slot may be used again once it is done
    free: bool,
}
static mut MADE: [Option<Made>; MAX] = [const { None }; MAX];
fn made(t: usize) -> &'static mut Option<Made> {
    unsafe { &mut (*std::ptr::addr_of_mut!(MADE))[t] }
}
static mut END_KEY: Option<libc::pthread_key_t> = None;

unsafe fn real<T>(name: &std::ffi::CStr) -> T {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    if p.is_null() {
        libc::abort();
    }
    std::mem::transmute_copy(&p)
}

/// Runs after the destructors of the thread's variables.
unsafe extern "C" fn ended(p: *mut libc::c_void) {
    let t = p as usize - 1;
    let _g = InSched::enter();
    let sc = s();
    sc.st[t] = St::Done;
    for x in &mut sc.st {
        if *x == St::Join(t) {
            *x = St::Runnable;
        }
    }
    if let Some(m) = made(t) {
        m.free = m.detached;
    }
    TID.with(|x| x.set(-1));
    next("is done");
}
extern "C" fn begin(p: *mut libc::c_void) -> *mut libc::c_void {
    let t = p as usize;
    park(t);
    TID.with(|x| x.set(t as i32));
    HOST.with(|h| h.set(0));
    let Some((f, x)) = made(t).as_ref().map(|m| (m.f, m.x)) else { std::process::abort() };
    unsafe {
        let end = END_KEY;
        if let Some(k) = end {
            libc::pthread_setspecific(k, (t + 1) as *const _);
        }
    }
    f(x)
}

type Create = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    *mut libc::c_void,
) -> i32;
extern "C" {
    fn pthread_attr_getdetachstate(a: *const libc::pthread_attr_t, s: *mut i32) -> i32;
}

#[no_mangle]
unsafe extern "C" fn pthread_create(
    h: *mut libc::pthread_t,
    a: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    x: *mut libc::c_void,
) -> i32 {
    let real: Create = real(c"pthread_create");
    if !sim() || HOST.with(|h| h.get()) > 0 {
        return real(h, a, f, x);
    }
    let _g = InSched::enter();
    let sc = s();
    let end = END_KEY;
    if end.is_none() {
        let mut k = 0;
        libc::pthread_key_create(&mut k, Some(ended));
        END_KEY = Some(k);
    }
    let old = (sc.hosts..sc.n).find(|t| sc.st[*t] == St::Done && made(*t).as_ref().is_some_and(|m| m.free));
    let t = old.unwrap_or(sc.n);
    if t == MAX {
        return libc::EAGAIN;
    }
    let mut d = 0;
    if !a.is_null() {
        pthread_attr_getdetachstate(a, &mut d);
    }
    *made(t) = Some(Made { handle: 0, f, x, detached: d == libc::PTHREAD_CREATE_DETACHED, free: false });
    let mut handle = 0;
    let r = real(&mut handle, a, begin, t as *mut _);
    if r != 0 {
        return r;
    }
    *h = handle;
    if let Some(m) = made(t) {
        m.handle = handle;
    }
    sc.n = sc.n.max(t + 1);
    sc.st[t] = St::Runnable;
    sc.made += 1;
    if sc.gap == 0 {
        sc.gap = draw_gap();
    }
    let (v, k) = runnable();
    if k > 1 {
        let i = draw(k as u32) as usize;
        switch_to(v[i], "starts a thread");
    }
    0
}
fn slot(h: libc::pthread_t) -> Option<usize> {
    let sc = s();
    (sc.hosts..sc.n).find(|t| made(*t).as_ref().is_some_and(|m| m.handle == h && !m.free && !m.detached))
}
#[no_mangle]
unsafe extern "C" fn pthread_join(h: libc::pthread_t, out: *mut *mut libc::c_void) -> i32 {
    let real: unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32 = real(c"pthread_join");
    if !sim() {
        return real(h, out);
    }
    let _g = InSched::enter();
    let t = slot(h);
    if let Some(t) = t {
        while s().st[t] != St::Done {
            block(St::Join(t), "waits for a thread to end");
        }
    }
    let r = real(h, out);
    if let Some(m) = t.and_then(|t| made(t).as_mut()) {
        m.free = true;
    }
    r
}
#[no_mangle]
unsafe extern "C" fn pthread_detach(h: libc::pthread_t) -> i32 {
    let real: unsafe extern "C" fn(libc::pthread_t) -> i32 = real(c"pthread_detach");
    if sim() {
        if let Some(t) = slot(h) {
            if let Some(m) = made(t) {
                m.detached = true;
                m.free = s().st[t] == St::Done;
            }
        }
    }
    real(h)
}

// ------------------------------------------------------------------ interposed functions

/// What the library allocated and nobody freed.
static LIVE: AtomicI64 = AtomicI64::new(0);
pub fn live() -> i64 {
    LIVE.load(Ordering::Relaxed)
}
/// Something the host made is the library's from now on.
pub fn given(s: &str) -> String {
    let _g = Mode::set(0);
    s.to_string()
}

/// In front of every allocation: whether the library made it.
fn head(l: Layout) -> (usize, Layout) {
    let h = l.align().max(16);
    // SAFETY: the alignment is that of a valid layout
    (h, unsafe { Layout::from_size_align_unchecked(l.size() + h, h) })
}
unsafe fn mark(p: *mut u8, l: Layout, h: usize) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let p = p.add(h);
    let lib = u64::from(HOST.try_with(|h| h.get()).unwrap_or(1) == 0 && !IN.try_with(|i| i.get()).unwrap_or(true));
    *p.sub(8).cast::<u64>() = lib;
    if lib == 1 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
    }
    p
}
unsafe fn unmark(p: *mut u8, l: Layout) {
    if *p.sub(8).cast::<u64>() == 1 {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
    }
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        let (h, full) = head(l);
        mark(System.alloc(full), l, h)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (h, full) = head(l);
        unmark(p, l);
        System.dealloc(p.sub(h), full);
        point();
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        let (h, full) = head(l);
        mark(System.alloc_zeroed(full), l, h)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        let (h, full) = head(l);
        let old = *p.sub(8).cast::<u64>();
        let q = System.realloc(p.sub(h), full, n + h);
        if q.is_null() {
            return q;
        }
        if old == 1 {
            LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        }
        mark(q, Layout::from_size_align_unchecked(n, l.align()), h)
    }
}
#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e };
}
fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        return -1;
    }
    r
}

unsafe fn futex(addr: *const AtomicU32, op: i64, val: u32, timeout: *const libc::timespec, bits: u32) -> i64 {
    let _g = InSched::enter();
    let cmd = op & 127;
    match cmd {
        0 | 9 => {
            if (*addr).load(Ordering::SeqCst) != val {
                set_errno(libc::EAGAIN);
                return -1;
            }
            let until = if timeout.is_null() {
                None
            } else {
                let t = (*timeout).tv_sec.saturating_mul(1_000_000_000).saturating_add((*timeout).tv_nsec);
                Some(if cmd == 9 { t } else { s().now_ns.saturating_add(t) })
            };
            if block(St::Futex { addr: addr as usize, bits: if cmd == 9 { bits } else { u32::MAX }, until }, "blocks on a lock") {
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            0
        }
        1 | 10 => {
            let mask = if cmd == 10 { bits } else { u32::MAX };
            let sc = s();
            let mut woken = 0;
            while woken < i64::from(val.min(1 << 20)) {
                let mut w = [0; MAX];
                let mut k = 0;
                for t in 0..sc.n {
                    if let St::Futex { addr: a, bits, .. } = sc.st[t] {
                        if a == addr as usize && bits & mask != 0 {
                            w[k] = t;
                            k += 1;
                        }
                    }
                }
                if k == 0 {
                    break;
                }
                let i = if k > 1 { draw(k as u32) as usize } else { 0 };
                sc.st[w[i]] = St::Runnable;
                woken += 1;
            }
            drop(_g);
            if woken > 0 {
                point();
            }
            woken
        }
        _ => {
            set_errno(libc::ENOSYS);
            -1
        }
    }
}

fn fill_random(p: *mut u8, n: usize) {
    for i in 0..n {
        let sc = s();
        sc.rand = crate::rng::mix(sc.rand, 0x5eed);
        unsafe { *p.add(i) = (sc.rand >> 32) as u8 };
    }
}

#[no_mangle]
unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && sim() {
        return futex(a as *const AtomicU32, b, c as u32, d as *const libc::timespec, f as u32);
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    ret(raw6(n, a, b, c, d, e, f))
}
#[no_mangle]
unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    fill_random(p, n);
    n as isize
}
/// Processors the process may use; 0: as many as there are.
pub static CPUS: AtomicI64 = AtomicI64::new(0);
#[no_mangle]
unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, m: *mut u8) -> i32 {
    let c = CPUS.load(Ordering::Relaxed);
    if c == 0 {
        let r = ret(raw6(libc::SYS_sched_getaffinity, i64::from(pid), n as i64, m as i64, 0, 0, 0));
        return if r < 0 { -1 } else { 0 };
    }
    for i in 0..n {
        *m.add(i) = (0..8).map(|b| u8::from(((i * 8 + b) as i64) < c) << b).sum();
    }
    0
}
#[no_mangle]
unsafe extern "C" fn sysconf(name: i32) -> i64 {
    let c = CPUS.load(Ordering::Relaxed);
    if c > 0 && (name == libc::_SC_NPROCESSORS_ONLN || name == libc::_SC_NPROCESSORS_CONF) {
        return c;
    }
    let real: unsafe extern "C" fn(i32) -> i64 = real(c"sysconf");
    real(name)
}
#[no_mangle]
extern "C" fn sched_yield() -> i32 {
    if sim() {
        let _g = InSched::enter();
        let (v, k) = runnable();
        if k > 1 {
            // give somebody else the turn, or a loop that waits would never end
            let i = 1 + if k > 2 { draw(k as u32 - 1) as usize } else { 0 };
            switch_to(v[i], "yields");
        }
        return 0;
    }
    unsafe { raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) };
    0
}
unsafe fn sleep_until(t: i64) {
    let _g = InSched::enter();
    block(St::Sleep(t), "sleeps");
}
#[no_mangle]
unsafe extern "C" fn nanosleep(r: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if sim() {
        sleep_until(s().now_ns.saturating_add((*r).tv_sec.saturating_mul(1_000_000_000) + (*r).tv_nsec));
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, r as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, r: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if sim() {
        let t = (*r).tv_sec.saturating_mul(1_000_000_000) + (*r).tv_nsec;
        sleep_until(if flags & libc::TIMER_ABSTIME != 0 { t } else { s().now_ns.saturating_add(t) });
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep, i64::from(clk), i64::from(flags), r as i64, rem as i64, 0, 0) as i32)
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(clk: i32, t: *mut libc::timespec) -> i32 {
    if sim() {
        let sc = s();
        sc.now_ns += sc.clock_step;
        // who looks at the clock all the time waits for somebody
        sc.alone += 40_000;
        if sc.alone > 4_000_000 {
            fair();
        }
        (*t).tv_sec = sc.now_ns.div_euclid(1_000_000_000);
        (*t).tv_nsec = sc.now_ns.rem_euclid(1_000_000_000);
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, i64::from(clk), t as i64, 0, 0, 0, 0)) as i32
}

// ------------------------------------------------------------------ what the library does to the process

static TOUCHED: std::sync::atomic::AtomicPtr<libc::c_char> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

/// Library code calls something that others in the process, or the world, can see.
fn touch(name: &'static std::ffi::CStr) -> bool {
    let yes = sim() && HOST.with(|h| h.get()) == 0;
    if yes {
        let _ = TOUCHED.compare_exchange(std::ptr::null_mut(), name.as_ptr().cast_mut(), Ordering::SeqCst, Ordering::SeqCst);
    }
    yes
}
unsafe fn denied() -> i64 {
    *libc::__errno_location() = libc::EACCES;
    -1
}
/// The first such call so far.
pub fn touched() -> Option<String> {
    let p = TOUCHED.load(Ordering::SeqCst);
    (!p.is_null()).then(|| unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().into_owned())
}
/// Threads of the library that are still there.
pub fn left_threads() -> usize {
    let sc = s();
    sc.st[sc.hosts..sc.n].iter().filter(|x| **x != St::Done && **x != St::Free).count()
}

macro_rules! watched {
    ($how:ident: $($name:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {$(
        #[no_mangle]
        unsafe extern "C" fn $name($($a: $t),*) -> $r {
            const NAME: &std::ffi::CStr = match std::ffi::CStr::from_bytes_with_nul(concat!(stringify!($name), "\0").as_bytes()) {
                Ok(n) => n,
                Err(_) => c"?",
            };
            let yes = touch(NAME);
            watched!(@ $how yes $r);
            let f: unsafe extern "C" fn($($t),*) -> $r = real(NAME);
            f($($a),*)
        }
    )*};
    // what is not undone when the run ends does not happen
    (@ denied $yes:ident $r:ty) => { if $yes { return denied() as $r; } };
    (@ seen $yes:ident $r:ty) => { let _ = $yes; };
}
type Str = *const libc::c_char;
type Vec_ = *const *const libc::c_char;
type Any_ = *const libc::c_void;
watched! { denied:
    writev(fd: i32, v: Any_, n: i32) -> isize;
    pwrite64(fd: i32, b: Any_, n: usize, o: i64) -> isize;
    ftruncate64(fd: i32, n: i64) -> i32;
    unlink(p: Str) -> i32;
    unlinkat(d: i32, p: Str, f: i32) -> i32;
    rename(a: Str, b: Str) -> i32;
    mkdir(p: Str, m: u32) -> i32;
    rmdir(p: Str) -> i32;
    symlink(a: Str, b: Str) -> i32;
    link(a: Str, b: Str) -> i32;
    linkat(d: i32, a: Str, e: i32, b: Str, f: i32) -> i32;
    chmod(p: Str, m: u32) -> i32;
    fchmod(fd: i32, m: u32) -> i32;
    fork() -> i32;
    execve(p: Str, a: Vec_, e: Vec_) -> i32;
    execvp(p: Str, a: Vec_) -> i32;
    posix_spawn(pid: *mut i32, p: Str, fa: Any_, at: Any_, a: Vec_, e: Vec_) -> i32;
    posix_spawnp(pid: *mut i32, p: Str, fa: Any_, at: Any_, a: Vec_, e: Vec_) -> i32;
    socket(d: i32, t: i32, p: i32) -> i32;
    kill(pid: i32, s: i32) -> i32;
}
watched! { seen:
    chdir(p: Str) -> i32;
    fchdir(fd: i32) -> i32;
    setenv(a: Str, b: Str, o: i32) -> i32;
    unsetenv(a: Str) -> i32;
    putenv(a: *mut libc::c_char) -> i32;
    clearenv() -> i32;
    umask(m: u32) -> u32;
    sigaction(s: i32, a: Any_, o: *mut libc::c_void) -> i32;
    signal(s: i32, h: usize) -> usize;
    dup2(a: i32, b: i32) -> i32;
    setlocale(c: i32, l: Str) -> *mut libc::c_char;
    setpriority(w: i32, who: u32, p: i32) -> i32;
    alarm(s: u32) -> u32;
}
#[no_mangle]
unsafe extern "C" fn write(fd: i32, b: *const libc::c_void, n: usize) -> isize {
    if touch(c"write") {
        return n as isize;
    }
    ret(raw6(libc::SYS_write, i64::from(fd), b as i64, n as i64, 0, 0, 0)) as isize
}
unsafe fn open_file(dir: i32, p: Str, flags: i32, mode: u32) -> i32 {
    if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0 {
        if touch(c"open for writing") {
            return denied() as i32;
        }
    }
    ret(raw6(libc::SYS_openat, i64::from(dir), p as i64, i64::from(flags), i64::from(mode), 0, 0)) as i32
}
#[allow(unknown_lints, invalid_runtime_symbol_definitions)]
#[no_mangle]
unsafe extern "C" fn open(p: Str, flags: i32, mode: u32) -> i32 {
    open_file(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
unsafe extern "C" fn open64(p: Str, flags: i32, mode: u32) -> i32 {
    open_file(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
unsafe extern "C" fn openat64(dir: i32, p: Str, flags: i32, mode: u32) -> i32 {
    open_file(dir, p, flags, mode)
}
