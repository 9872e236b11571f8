//! The simulator's runtime: everything nondeterministic goes through here.
//!
//! * worker threads that run one at a time, handed a quantum of yield points by
//!   the controller (allocations, entropy draws, futex waits and wakes are yield points);
//! * simulated entropy streams behind the substituted `rand::ThreadRng`;
//! * `syscall`/`getrandom` interposition, so that std's locks park in the
//!   scheduler instead of the kernel and hash-map seeds are fixed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::{Acquire, Relaxed, Release, SeqCst}};

// ---------------------------------------------------------------- PRNG

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93))
}

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5eed_0000_0000_0001))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

pub fn fnv(h: u64, x: u64) -> u64 {
    mix(h.rotate_left(5) ^ x)
}

// ---------------------------------------------------------------- raw syscalls

#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
compile_error!("the simulator's system call seam is written for x86_64 Linux");

unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let ret: i64;
    core::arch::asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

const SYS_FUTEX: i64 = 202;
const SYS_GETRANDOM: i64 = 318;

fn futex_wait(w: &AtomicU32, val: u32) {
    unsafe { raw_syscall(SYS_FUTEX, w as *const _ as usize, 128, val as usize, 0, 0, 0) };
}
fn futex_wake(w: &AtomicU32) {
    unsafe { raw_syscall(SYS_FUTEX, w as *const _ as usize, 129, i32::MAX as usize, 0, 0, 0) };
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

static OS_CTR: AtomicU64 = AtomicU64::new(0);
pub static OS_KEY: AtomicU64 = AtomicU64::new(0x0520);

unsafe fn sim_os_random(buf: *mut u8, len: usize) {
    for i in 0..len {
        let c = OS_CTR.fetch_add(1, SeqCst);
        *buf.add(i) = mix2(OS_KEY.load(SeqCst), c) as u8;
    }
}

/// libc's `syscall`, as called by std (futex) and by the getrandom crate.
/// # Safety
/// Same contract as libc's.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == SYS_GETRANDOM {
        // code that asks the operating system directly draws from the same simulated source
        let dest = std::slice::from_raw_parts_mut(a as *mut u8, if a == 0 { 0 } else { b });
        if !dest.is_empty() && !job_random(dest) {
            sim_os_random(a as *mut u8, b);
        }
        return b as i64;
    }
    if n == SYS_FUTEX && T.with(|t| t.active.get()) {
        let op = b & 0x7f;
        // FUTEX_WAIT, FUTEX_WAIT_BITSET: give way to the scheduler and return as
        // from a spurious wake-up; every caller in std re-checks its condition.
        if op == 0 || op == 9 {
            let word = &*(a as *const AtomicU32);
            if word.load(SeqCst) == c as u32 {
                LOCK_WAITS.fetch_add(1, SeqCst);
                park_now(Y_LOCK);
            }
            return 0;
        }
        // FUTEX_WAKE, FUTEX_WAKE_BITSET: a contended lock has just been released; whoever
        // waits for it may run before the releaser does another step
        if op == 1 || op == 10 {
            park_now(Y_WAKE);
            return 1;
        }
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    r
}

/// libc's `getrandom`, as called by std for hash-map seeds.
/// # Safety
/// Same contract as libc's.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    sim_os_random(buf, len);
    len as isize
}

static CLOCK: AtomicU64 = AtomicU64::new(0);
/// how far the wall clock is off the steady one, in seconds
static WALL_SKEW: AtomicI64 = AtomicI64::new(0);
/// whether time jumps between the steps of this run
pub static CLOCK_JUMPS: AtomicBool = AtomicBool::new(false);

pub fn clock_us() -> u64 {
    CLOCK.load(SeqCst)
}

/// The simulated steady clock is at least at `us`.
pub fn clock_at_least(us: u64) {
    CLOCK.fetch_max(us + 1, SeqCst);
}

/// libc's `clock_gettime`: inside a simulated run, time advances by a microsecond per look
/// and by jumps between steps; the wall clock may also be set back.
/// # Safety
/// Same contract as libc's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if CLOCK.load(SeqCst) == 0 {
        let r = raw_syscall(228, id as usize, ts as usize, 0, 0, 0, 0);
        return if r < 0 { -1 } else { 0 };
    }
    let us = CLOCK.fetch_add(1, SeqCst);
    // CLOCK_REALTIME and its coarse form; the others only move forward
    let base = if id == 0 || id == 5 { 1_700_000_000 + WALL_SKEW.load(SeqCst) } else { 1_000_000 };
    *ts = [base + (us / 1_000_000) as i64, (us % 1_000_000) as i64 * 1000];
    0
}

// ---------------------------------------------------------------- yield points

pub const Y_ALLOC: u32 = 1;
pub const Y_DRAW: u32 = 2;
pub const Y_LOCK: u32 = 3;
pub const Y_DONE: u32 = 4;
pub const Y_STEP: u32 = 5;
pub const Y_WAKE: u32 = 6;

const MAXW: usize = 64;

struct Tls {
    active: Cell<bool>,
    worker: Cell<u32>,
    quantum: Cell<i64>,
}

thread_local! {
    static T: Tls = const { Tls { active: Cell::new(false), worker: Cell::new(0), quantum: Cell::new(0) } };
    static STREAM: RefCell<Option<Stream>> = const { RefCell::new(None) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

#[allow(clippy::declare_interior_mutable_const)]
const Z32: AtomicU32 = AtomicU32::new(0);
static TURN: [AtomicU32; MAXW] = [Z32; MAXW]; // 1: worker may run
static CTRL: AtomicU32 = AtomicU32::new(0); // 1: controller may run
static WHY: [AtomicU32; MAXW] = [Z32; MAXW];
static GRANT: AtomicU64 = AtomicU64::new(0);
static YIELDS: AtomicU64 = AtomicU64::new(0);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static DRAWS: AtomicU64 = AtomicU64::new(0);
static LOCK_WAITS: AtomicU64 = AtomicU64::new(0);

fn park_now(why: u32) {
    let w = T.with(|t| {
        t.active.set(false);
        t.worker.get() as usize
    });
    WHY[w].store(why, SeqCst);
    TURN[w].store(0, SeqCst);
    CTRL.store(1, SeqCst);
    futex_wake(&CTRL);
    while TURN[w].load(SeqCst) == 0 {
        futex_wait(&TURN[w], 0);
    }
    T.with(|t| {
        t.quantum.set(GRANT.load(SeqCst) as i64);
        t.active.set(why != Y_DONE);
    });
}

#[inline]
fn yield_point(why: u32) {
    T.with(|t| {
        if !t.active.get() {
            return;
        }
        YIELDS.fetch_add(1, SeqCst);
        let q = t.quantum.get() - 1;
        t.quantum.set(q);
        if q <= 0 {
            park_now(why);
        }
    });
}

/// Called by the crate under test at every basic block in the stepped build.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    let _ = T.try_with(|t| {
        if !t.active.get() {
            return;
        }
        let q = t.quantum.get() - 1;
        t.quantum.set(q);
        if q <= 0 {
            park_now(Y_STEP);
        }
    });
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if T.try_with(|t| t.active.get()).unwrap_or(false) {
            ALLOCS.fetch_add(1, SeqCst);
            yield_point(Y_ALLOC);
        }
        if pooled(&l) {
            pool_take(class(&l))
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if pooled(&l) {
            pool_put(class(&l), p)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let m = Layout::from_size_align_unchecked(n, l.align());
        if !pooled(&l) && !pooled(&m) {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(m);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

/// Small blocks come from one last-in-first-out list per size, shared by all threads: an
/// address freed by one caller is the next one another caller gets, in every run alike.
/// Identity of an object that is gone can then be mistaken for that of a later one, as in
/// a long-lived process.
const CLASS: usize = 16;
const POOL_MAX: usize = 8192;
struct Pool(UnsafeCell<[*mut u8; POOL_MAX / CLASS + 1]>);
unsafe impl Sync for Pool {}
static POOL: Pool = Pool(UnsafeCell::new([std::ptr::null_mut(); POOL_MAX / CLASS + 1]));
static POOL_LOCK: AtomicBool = AtomicBool::new(false);

#[inline]
fn pooled(l: &Layout) -> bool {
    l.size() > 0 && l.size() <= POOL_MAX && l.align() <= CLASS
}
#[inline]
fn class(l: &Layout) -> usize {
    l.size().div_ceil(CLASS)
}
fn pool_locked<R>(f: impl FnOnce(&mut [*mut u8; POOL_MAX / CLASS + 1]) -> R) -> R {
    while POOL_LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *POOL.0.get() });
    POOL_LOCK.store(false, Release);
    r
}
unsafe fn pool_take(c: usize) -> *mut u8 {
    let p = pool_locked(|p| {
        let h = p[c];
        if !h.is_null() {
            p[c] = *(h as *mut *mut u8);
        }
        h
    });
    if p.is_null() {
        System.alloc(Layout::from_size_align_unchecked(c * CLASS, CLASS))
    } else {
        p
    }
}
unsafe fn pool_put(c: usize, q: *mut u8) {
    pool_locked(|p| {
        *(q as *mut *mut u8) = p[c];
        p[c] = q;
    })
}

// ---------------------------------------------------------------- entropy

/// What an injected entropy fault does to the byte stream.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pat {
    Zero,
    Ones,
    Alt,
    Repeat,
    Sparse,
}

impl Pat {
    pub fn from_u64(x: u64) -> Pat {
        [Pat::Zero, Pat::Ones, Pat::Alt, Pat::Repeat, Pat::Sparse][(x % 5) as usize]
    }
    pub fn name(self) -> &'static str {
        match self {
            Pat::Zero => "entropy_stuck_zero",
            Pat::Ones => "entropy_stuck_ones",
            Pat::Alt => "entropy_alternating",
            Pat::Repeat => "entropy_repeating",
            Pat::Sparse => "entropy_biased",
        }
    }
}

#[derive(Clone, Default, Debug)]
pub struct Stream {
    pub key: u64,
    pub pos: u64,
    /// (start byte, length, pattern)
    pub bursts: Vec<(u64, u64, u64)>,
    /// byte offsets whose value is inverted
    pub flips: Vec<u64>,
    /// the draw that first reaches this offset fails
    pub fail_at: Option<u64>,
    pub fired: BTreeMap<&'static str, u64>,
    pub draws: u64,
    /// (offset, length) of each draw
    pub log: Vec<(u64, u32)>,
    pub keep_log: bool,
}

impl Stream {
    pub fn new(key: u64) -> Self {
        Stream { key, ..Default::default() }
    }
    fn byte(&self, o: u64) -> u8 {
        (mix2(self.key, o >> 3) >> ((o & 7) * 8)) as u8
    }
    fn fill(&mut self, dest: &mut [u8]) -> bool {
        self.draws += 1;
        if self.keep_log {
            self.log.push((self.pos, dest.len() as u32));
        }
        if let Some(f) = self.fail_at {
            if self.pos + dest.len() as u64 > f {
                self.fail_at = None;
                *self.fired.entry("entropy_failure").or_insert(0) += 1;
                return false;
            }
        }
        for d in dest.iter_mut() {
            let o = self.pos;
            self.pos += 1;
            let mut b = self.byte(o);
            for (s, l, p) in &self.bursts {
                if o >= *s && o < s + l {
                    if *p >= 100 {
                        // bits of period 4v: +2v, -2v or alternating extremes for the
                        // centred binomial sampler of variance v
                        let (v, mode) = ((*p - 100) % 100, (*p - 100) / 100);
                        let v = v.clamp(1, 16);
                        b = 0;
                        for i in 0..8 {
                            let bit = (o - s) * 8 + i;
                            let high = (bit % (4 * v)) < 2 * v;
                            let flip = match mode { 0 => false, 1 => true, _ => (bit / (4 * v)) % 2 == 1 };
                            if high != flip {
                                b |= 1 << i;
                            }
                        }
                        if o == *s {
                            *self.fired.entry("entropy_extreme_noise").or_insert(0) += 1;
                        }
                        continue;
                    }
                    let p = Pat::from_u64(*p);
                    b = match p {
                        Pat::Zero => 0,
                        Pat::Ones => 0xff,
                        Pat::Alt => if o & 1 == 0 { 0xaa } else { 0x55 },
                        Pat::Repeat => self.byte(s + (o - s) % 8),
                        Pat::Sparse => self.byte(o) & self.byte(o ^ (1 << 40)) & self.byte(o ^ (1 << 41)),
                    };
                    if o == *s {
                        *self.fired.entry(p.name()).or_insert(0) += 1;
                    }
                }
            }
            if self.flips.contains(&o) {
                b = !b;
            }
            *d = b;
        }
        true
    }
}

/// Fills from the running job's stream, if there is one.
fn job_random(dest: &mut [u8]) -> bool {
    let was = T.with(|t| t.active.replace(false));
    let r = STREAM.with(|s| match s.try_borrow_mut() {
        Ok(mut s) => match s.as_mut() {
            Some(st) => {
                st.fail_at = None;
                st.fill(dest)
            }
            None => false,
        },
        Err(_) => false,
    });
    T.with(|t| t.active.set(was));
    r
}

pub struct EntropyFailure;

fn entropy_hook(dest: &mut [u8]) {
    DRAWS.fetch_add(1, SeqCst);
    yield_point(Y_DRAW);
    let was = T.with(|t| t.active.replace(false));
    let ok = STREAM.with(|s| {
        let mut s = s.borrow_mut();
        match s.as_mut() {
            Some(st) => st.fill(dest),
            None => {
                // outside any job: a fixed stream, so that nothing is ever drawn from the OS
                unsafe { sim_os_random(dest.as_mut_ptr(), dest.len()) };
                true
            }
        }
    });
    T.with(|t| t.active.set(was));
    if !ok {
        std::panic::panic_any(EntropyFailure);
    }
}

/// How a job ended.
pub enum Outcome<R> {
    Ok(R),
    /// the injected entropy failure unwound out of it
    EntropyFailed,
    /// it panicked: message and location
    Panicked(String),
}

fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let was = T.with(|t| t.active.replace(false));
    let r = f();
    T.with(|t| t.active.set(was));
    r
}

/// Runs `f` with `s` as the entropy source; returns the outcome and the stream after it.
pub fn with_stream<R>(s: Stream, f: impl FnOnce() -> R) -> (Outcome<R>, Stream) {
    quiet(|| {
        STREAM.with(|c| *c.borrow_mut() = Some(s));
        PANIC.with(|p| *p.borrow_mut() = None);
    });
    let r = catch_unwind(AssertUnwindSafe(f));
    quiet(|| {
        let s = STREAM.with(|c| c.borrow_mut().take()).unwrap();
        let o = match r {
            Ok(v) => Outcome::Ok(v),
            Err(e) if e.is::<EntropyFailure>() => Outcome::EntropyFailed,
            Err(_) => Outcome::Panicked(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
        };
        (o, s)
    })
}

/// No run outlives its limits: processor time (an endless loop) and wall time (a hang).
pub fn limits(cpu_s: u64, wall_s: u64) {
    let l = [cpu_s, cpu_s + 5];
    unsafe {
        raw_syscall(160, 0, l.as_ptr() as usize, 0, 0, 0, 0);
        raw_syscall(37, wall_s as usize, 0, 0, 0, 0, 0);
    }
}

pub fn init() {
    limits(90, 300);
    CLOCK.store(1, SeqCst);
    simhook::install(entropy_hook);
    std::panic::set_hook(Box::new(|info| {
        quiet(|| {
            if info.payload().is::<EntropyFailure>() {
                return;
            }
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()))
                .unwrap_or_default();
            let msg = msg.replace('\n', " ");
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} @ {loc}")));
        })
    }));
}

// ---------------------------------------------------------------- scheduler

type Job = Box<dyn FnOnce() -> Box<dyn Any + Send> + Send>;
struct Slot(std::cell::UnsafeCell<Option<Job>>, std::cell::UnsafeCell<Option<Box<dyn Any + Send>>>);
unsafe impl Sync for Slot {}
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot(std::cell::UnsafeCell::new(None), std::cell::UnsafeCell::new(None));
static SLOTS: [Slot; MAXW] = [EMPTY; MAXW];
static FREE: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(vec![]);
static THREADS: AtomicU32 = AtomicU32::new(0);

fn worker_main(w: usize) {
    T.with(|t| t.worker.set(w as u32));
    // touch the thread-locals once so that their set-up is not part of any job
    STREAM.with(|s| *s.borrow_mut() = None);
    PANIC.with(|s| *s.borrow_mut() = None);
    park_now(Y_DONE);
    loop {
        let job = unsafe { (*SLOTS[w].0.get()).take() }.expect("job");
        T.with(|t| t.active.set(true));
        let r = job();
        T.with(|t| t.active.set(false));
        unsafe { *SLOTS[w].1.get() = Some(r) };
        park_now(Y_DONE);
    }
}

fn hand_over(w: usize, quantum: u64) {
    GRANT.store(quantum, SeqCst);
    CTRL.store(0, SeqCst);
    TURN[w].store(1, SeqCst);
    futex_wake(&TURN[w]);
    while CTRL.load(SeqCst) == 0 {
        futex_wait(&CTRL, 0);
    }
}

#[derive(Clone, Copy, PartialEq)]
enum W {
    Idle,
    Busy(usize),
    /// parked part-way; runs again only when nothing else can make progress
    Stalled(usize),
}

/// Runs jobs on a fixed set of simulated caller threads, one at a time.
pub struct Sched {
    workers: Vec<W>,
    ids: Vec<usize>,
    queue: std::collections::VecDeque<(usize, Job)>,
    rng: Rng,
    pub preempt_left: u64,
    /// quanta of this run are below two to this
    emax: u64,
    pub preempted: [u64; 7],
    pub trace: u64,
    pub decisions: u64,
    pub log: Vec<String>,
    spin: u64,
    pub stalls: u64,
    clock: Option<Rng>,
    pub jumps: u64,
}

pub enum Step {
    /// a job finished with its result
    Done(usize, Box<dyn Any + Send>),
    Progress,
    Idle,
    /// every live thread is waiting for a lock
    Deadlock,
}

impl Sched {
    pub fn new(nworkers: usize, seed: u64, preempt_limit: u64) -> Self {
        let mut s = Sched {
            workers: vec![],
            ids: vec![],
            queue: Default::default(),
            emax: Rng::new(seed ^ 0xe).range(3, if cfg!(onion_stepped) { 20 } else { 13 }),
            rng: Rng::new(seed),
            preempt_left: preempt_limit,
            preempted: [0; 7],
            trace: 0,
            decisions: 0,
            log: vec![],
            spin: 0,
            stalls: 0,
            clock: if CLOCK_JUMPS.load(SeqCst) { Some(Rng::new(seed ^ 0xc10c)) } else { None },
            jumps: 0,
        };
        for _ in 0..nworkers {
            s.spawn_worker();
        }
        s
    }

    fn spawn_worker(&mut self) {
        let w = match FREE.lock().unwrap().pop() {
            Some(w) => w,
            None => {
                let w = THREADS.fetch_add(1, SeqCst) as usize;
                assert!(w < MAXW, "too many simulated threads");
                CTRL.store(0, SeqCst);
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn(move || worker_main(w))
                    .expect("spawn");
                while CTRL.load(SeqCst) == 0 {
                    futex_wait(&CTRL, 0);
                }
                w
            }
        };
        self.ids.push(w);
        self.workers.push(W::Idle);
    }

    /// Gives the idle threads back for the next scheduler.
    pub fn retire(&mut self) {
        let mut f = FREE.lock().unwrap();
        for (i, w) in self.workers.iter().enumerate().rev() {
            if *w == W::Idle {
                f.push(self.ids[i]);
            }
        }
        drop(f);
        self.workers.clear();
        self.ids.clear();
    }

    /// Queues a job; it starts when a simulated thread is free.
    pub fn submit<R: Send + 'static>(&mut self, id: usize, f: impl FnOnce() -> R + Send + 'static) {
        self.queue.push_back((id, Box::new(move || Box::new(f()) as Box<dyn Any + Send>)));
    }

    pub fn pending(&self) -> bool {
        !self.queue.is_empty() || self.workers.iter().any(|w| matches!(w, W::Busy(_)))
    }

    /// Jobs that have started and are parked part-way.
    pub fn in_flight(&self) -> Vec<usize> {
        self.workers.iter().filter_map(|w| if let W::Busy(j) = w { Some(*j) } else { None }).collect()
    }

    /// The thread running `job` stops part-way. It runs again only if everything
    /// else waits for it (it may hold a lock) or at `drain`.
    pub fn stall(&mut self, job: usize) -> bool {
        if let Some(i) = self.workers.iter().position(|w| *w == W::Busy(job)) {
            self.workers[i] = W::Stalled(job);
            self.stalls += 1;
            self.note(2, i as u64, job as u64);
            self.log.push(format!("stall thread {i} (job {job})"));
            if (THREADS.load(SeqCst) as usize) < MAXW {
                self.spawn_worker();
            }
            return true;
        }
        false
    }

    /// Removes a job that has not started.
    pub fn cancel(&mut self, job: usize) -> bool {
        if let Some(i) = self.queue.iter().position(|(j, _)| *j == job) {
            self.queue.remove(i);
            return true;
        }
        false
    }

    fn wake_stalled(&mut self) -> bool {
        let mut any = false;
        for w in self.workers.iter_mut() {
            if let W::Stalled(j) = *w {
                *w = W::Busy(j);
                any = true;
            }
        }
        any
    }

    /// Lets every stalled thread continue.
    pub fn drain(&mut self) -> bool {
        self.wake_stalled()
    }

    /// Time passes between steps: mostly little, sometimes a day, and the wall clock is reset.
    fn pass_time(&mut self) {
        let Some(r) = self.clock.as_mut() else { return };
        if r.below(8) != 0 {
            return;
        }
        let us = match r.below(4) {
            0 => r.below(2_000),
            1 => r.below(5_000_000),
            2 => r.below(7_200_000_000),
            _ => r.below(300_000_000_000),
        };
        CLOCK.fetch_add(us, SeqCst);
        if r.below(4) == 0 {
            WALL_SKEW.store(r.below(200_000_000) as i64 - 100_000_000, SeqCst);
        }
        self.jumps += 1;
    }

    pub fn step(&mut self) -> Step {
        self.pass_time();
        // place queued jobs on idle threads
        loop {
            let idle: Vec<usize> = (0..self.workers.len()).filter(|i| self.workers[*i] == W::Idle).collect();
            if self.queue.is_empty() || idle.is_empty() {
                break;
            }
            let w = *self.rng.pick(&idle);
            let (id, job) = self.queue.pop_front().unwrap();
            unsafe { *SLOTS[self.ids[w]].0.get() = Some(job) };
            WHY[self.ids[w]].store(0, SeqCst);
            self.workers[w] = W::Busy(id);
            self.note(0, w as u64, id as u64);
        }
        let busy: Vec<usize> = (0..self.workers.len()).filter(|i| matches!(self.workers[*i], W::Busy(_))).collect();
        if busy.is_empty() {
            return Step::Idle;
        }
        let w = *self.rng.pick(&busy);
        let contended = busy.len() > 1;
        let q = if self.preempt_left > 0 && contended && self.rng.chance(70) {
            let e = self.rng.below(self.emax);
            (1u64 << e) + self.rng.below(1u64 << e)
        } else {
            u64::MAX >> 2
        };
        self.note(1, w as u64, q);
        let g = self.ids[w];
        hand_over(g, q);
        let why = WHY[g].load(SeqCst);
        let W::Busy(id) = self.workers[w] else { unreachable!() };
        if why == Y_DONE {
            self.spin = 0;
            self.workers[w] = W::Idle;
            let r = unsafe { (*SLOTS[g].1.get()).take() }.expect("result");
            return Step::Done(id, r);
        }
        self.preempted[why as usize] += 1;
        if why == Y_LOCK {
            self.spin += 1;
            if self.spin > 2_000 && self.wake_stalled() {
                self.spin = 0;
            }
            if self.spin > 2_000 && self.spin % 500 == 0 && foreign_threads() {
                // the library started threads of its own: they run outside the schedule, give them time
                std::thread::sleep(std::time::Duration::from_millis(2));
                self.spin = 2_000;
            }
            if self.spin > 20_000 {
                return Step::Deadlock;
            }
        } else {
            self.spin = 0;
            self.preempt_left = self.preempt_left.saturating_sub(1);
            self.log.push(format!("preempt thread {w} (job {id}) at {} #{q}", match why { Y_ALLOC => "allocation", Y_STEP => "basic block", Y_WAKE => "lock release", _ => "entropy draw" }));
        }
        Step::Progress
    }

    fn note(&mut self, a: u64, b: u64, c: u64) {
        self.decisions += 1;
        self.trace = fnv(fnv(fnv(self.trace, a), b), c);
    }
}

fn foreign_threads() -> bool {
    let n = std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0);
    n > THREADS.load(SeqCst) as usize + 1
}

pub fn counters() -> (u64, u64, u64, u64) {
    (YIELDS.load(SeqCst), ALLOCS.load(SeqCst), DRAWS.load(SeqCst), LOCK_WAITS.load(SeqCst))
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone()).unwrap_or_else(|| "unknown".into())
}
