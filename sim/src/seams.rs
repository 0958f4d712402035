//! Seams: entropy, clock, thread scheduling and the allocator of this process.
//! libc entry points are interposed (`getrandom`, `syscall`, `clock_gettime`, ...), so the code under
//! test and everything below it gets simulated values while a call of it is running.

use crate::ctx::catch;
use libc::{c_int, c_long, c_void, size_t, ssize_t, timespec};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- raw system calls

#[inline(always)]
pub unsafe fn raw_syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

// ---------------------------------------------------------------- entropy

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ent {
    /// give the next n bytes (at most) of the simulated stream
    Give(usize),
    /// interrupted
    Eintr,
    /// nothing, as at the end of a file
    Zero,
    /// fail with this errno
    Fail(c_int),
}

pub struct Entropy {
    state: u64,
    /// constant bytes instead of a stream
    pub repeat: Option<[u8; 64]>,
    /// what the next calls do; beyond the list everything is delivered in full
    pub plan: std::collections::VecDeque<Ent>,
    /// every byte delivered, in order
    pub drawn: Vec<u8>,
    /// for each of them, the thread that drew it
    pub tags: Vec<u8>,
    /// requests that failed, by thread
    pub fails: [u64; MAXT + 1],
    pub calls: u64,
    pub eintr: u64,
    pub short: u64,
    pub failed: u64,
    rpos: usize,
}

impl Entropy {
    /// a repeating source starts over with the next request
    pub fn rewind(&mut self) {
        self.rpos = 0;
    }
}

static mut ENTROPY: Option<Entropy> = None;
static ENTROPY_ON: AtomicBool = AtomicBool::new(false);

#[allow(static_mut_refs)]
pub fn entropy() -> &'static mut Entropy {
    unsafe { ENTROPY.as_mut().unwrap() }
}

/// From here on this process draws its entropy from the given seed
#[allow(static_mut_refs)]
pub fn entropy_seed(seed: u64) {
    unsafe {
        ENTROPY = Some(Entropy {
            state: seed,
            repeat: None,
            plan: Default::default(),
            drawn: Vec::with_capacity(1 << 16),
            tags: Vec::with_capacity(1 << 16),
            fails: [0; MAXT + 1],
            calls: 0,
            eintr: 0,
            short: 0,
            failed: 0,
            rpos: 0,
        });
    }
    ENTROPY_ON.store(true, SeqCst);
}

unsafe fn sim_getrandom(buf: *mut u8, len: usize) -> ssize_t {
    if len == 0 {
        return 0;
    }
    if threads_on() {
        point();
    }
    let e = entropy();
    let me = my_thread();
    e.calls += 1;
    let n = match e.plan.pop_front() {
        None => len,
        Some(Ent::Give(n)) => {
            let n = n.clamp(1, len);
            if n < len {
                e.short += 1;
            }
            n
        }
        Some(Ent::Eintr) => {
            e.eintr += 1;
            set_errno(libc::EINTR);
            return -1;
        }
        Some(Ent::Zero) => {
            e.failed += 1;
            e.fails[me] += 1;
            return 0;
        }
        Some(Ent::Fail(no)) => {
            e.failed += 1;
            e.fails[me] += 1;
            set_errno(no);
            return -1;
        }
    };
    let out = std::slice::from_raw_parts_mut(buf, n);
    match e.repeat {
        Some(r) => {
            for b in out.iter_mut() {
                *b = r[e.rpos % 64];
                e.rpos += 1;
            }
            // a repeating source starts over with every complete request
            if n == len {
                e.rpos = 0;
            }
        }
        None => {
            for b in out.iter_mut() {
                e.state = e.state.wrapping_add(0x9E3779B97F4A7C15);
                *b = (crate::src::mix(e.state) >> 24) as u8;
            }
        }
    }
    no_yield(|| {
        e.drawn.extend_from_slice(out);
        e.tags.resize(e.drawn.len(), me as u8);
    });
    n as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> ssize_t {
    if ENTROPY_ON.load(Relaxed) {
        return sim_getrandom(buf as *mut u8, len);
    }
    let r = raw_syscall(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: size_t) -> c_int {
    let mut done = 0;
    while done < len {
        let r = getrandom((buf as *mut u8).add(done) as *mut c_void, len - done, 0);
        if r < 0 {
            if *libc::__errno_location() == libc::EINTR {
                continue;
            }
            return -1;
        }
        done += r as usize;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_getrandom && ENTROPY_ON.load(Relaxed) {
        return sim_getrandom(a as *mut u8, b) as c_long;
    }
    if n == libc::SYS_futex && threads_on() {
        let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            // let another thread go on instead of sleeping; this looks like a spurious wake-up
            blocked_yield();
            return 0;
        }
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        return -1;
    }
    r as c_long
}

// ---------------------------------------------------------------- clock

static CLOCK_ON: AtomicBool = AtomicBool::new(false);
static CLOCK_SEC: AtomicU64 = AtomicU64::new(0);
static CLOCK_NSEC: AtomicU64 = AtomicU64::new(0);
/// how far the clock moves with every reading, ns (as i64)
static CLOCK_STEP: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);

/// the simulated wall clock of the node that runs next: ns since 1970
pub fn set_clock(sec: i64, nsec: u32) {
    CLOCK_SEC.store(sec as u64, SeqCst);
    CLOCK_NSEC.store(nsec as u64, SeqCst);
    CLOCK_ON.store(true, SeqCst);
}

pub fn set_clock_step(ns: i64) {
    CLOCK_STEP.store(ns as u64, SeqCst);
}
pub fn clock() -> (i64, u32) {
    (CLOCK_SEC.load(SeqCst) as i64, CLOCK_NSEC.load(SeqCst) as u32)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if CLOCK_ON.load(Relaxed) {
        if clk != libc::CLOCK_REALTIME && clk != libc::CLOCK_REALTIME_COARSE {
            // time since the node started, of no use as a date
            (*ts).tv_sec = 1000 + CLOCK_READS.load(Relaxed) as i64;
            (*ts).tv_nsec = 0;
            return 0;
        }
        CLOCK_READS.fetch_add(1, Relaxed);
        let (sec, nsec) = (CLOCK_SEC.load(Relaxed) as i64, CLOCK_NSEC.load(Relaxed) as i64);
        (*ts).tv_sec = sec;
        (*ts).tv_nsec = nsec;
        let step = CLOCK_STEP.load(Relaxed) as i64;
        if step != 0 {
            let n = nsec + step;
            CLOCK_SEC.store((sec + n.div_euclid(1_000_000_000)) as u64, Relaxed);
            CLOCK_NSEC.store(n.rem_euclid(1_000_000_000) as u64, Relaxed);
        }
        return 0;
    }
    let r = raw_syscall(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !tv.is_null() {
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}

// ---------------------------------------------------------------- allocator

pub struct SimAlloc;

#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

thread_local! {
    static IN_CALL: Cell<u32> = const { Cell::new(0) };
    static NO_YIELD: Cell<u32> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static MY: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// bytes a single call may allocate in total before it is stopped; 0: no bound
static LIMIT: AtomicU64 = AtomicU64::new(0);
/// the largest single request a call may make
pub const EXIT_UNBOUNDED: i32 = 77;

pub fn set_alloc_limit(bytes: u64) {
    LIMIT.store(bytes, SeqCst);
}

const MAXN: usize = 1024;
static mut NEEDLES: [([u8; 96], usize); MAXN] = [([0; 96], 0); MAXN];
static NNEEDLES: AtomicUsize = AtomicUsize::new(0);
static SCAN: AtomicBool = AtomicBool::new(false);
static mut HITS: [(usize, usize, usize); 32] = [(0, 0, 0); 32];
static NHITS: AtomicUsize = AtomicUsize::new(0);
pub static SCANNED_BLOCKS: AtomicU64 = AtomicU64::new(0);
pub static SCANNED_BYTES: AtomicU64 = AtomicU64::new(0);

/// look for this in every block the code under test releases
pub fn add_needle(b: &[u8]) {
    let n = NNEEDLES.load(SeqCst);
    if n < MAXN && b.len() <= 96 && b.len() >= 8 {
        unsafe {
            NEEDLES[n].0[..b.len()].copy_from_slice(b);
            NEEDLES[n].1 = b.len();
        }
        NNEEDLES.store(n + 1, SeqCst);
    }
}
pub fn clear_needles() {
    NNEEDLES.store(0, SeqCst);
    NHITS.store(0, SeqCst);
}
pub fn scanning(on: bool) {
    SCAN.store(on, SeqCst);
}
/// (needle, block size, offset) of secrets found in released blocks since last asked
pub fn take_hits() -> Vec<(usize, usize, usize)> {
    let n = NHITS.swap(0, SeqCst).min(32);
    (0..n).map(|i| unsafe { HITS[i] }).collect()
}

// blocks the code under test has taken while scanning was on and nobody has released yet
const MAXB: usize = 1 << 16;
static mut BLOCKS: [(usize, usize); MAXB] = [(0, 0); MAXB];
const GONE: usize = 1;

unsafe fn slot(ptr: usize, free: bool) -> Option<usize> {
    let mut i = (ptr >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 48;
    let mut spare = None;
    for _ in 0..512 {
        let k = BLOCKS[i].0;
        if k == ptr {
            return Some(i);
        }
        if k == GONE && spare.is_none() {
            spare = Some(i);
        }
        if k == 0 {
            return if free { spare.or(Some(i)) } else { None };
        }
        i = (i + 1) % MAXB;
    }
    if free {
        spare
    } else {
        None
    }
}
unsafe fn took(ptr: *mut u8, size: usize) {
    if !ptr.is_null() {
        if let Some(i) = slot(ptr as usize, true) {
            BLOCKS[i] = (ptr as usize, size);
        }
    }
}
unsafe fn gave(ptr: *mut u8) {
    if let Some(i) = slot(ptr as usize, false) {
        BLOCKS[i].0 = GONE;
    }
}
/// Image of this process: (needle, block size, offset) of what is in blocks that were taken by the code
/// under test and are still in use
pub fn image() -> Vec<(usize, usize, usize)> {
    NHITS.store(0, SeqCst);
    unsafe {
        for i in 0..MAXB {
            let (p, n) = BLOCKS[i];
            if p > GONE {
                scan(p as *const u8, n);
            }
        }
    }
    take_hits()
}

unsafe fn scan(ptr: *const u8, size: usize) {
    SCANNED_BLOCKS.fetch_add(1, Relaxed);
    SCANNED_BYTES.fetch_add(size as u64, Relaxed);
    let n = NNEEDLES.load(Relaxed);
    if n == 0 {
        return;
    }
    let mem = std::slice::from_raw_parts(ptr, size);
    for k in 0..n {
        let len = NEEDLES[k].1;
        if len > size {
            continue;
        }
        let nd = std::slice::from_raw_parts(std::ptr::addr_of!(NEEDLES[k].0) as *const u8, len);
        let mut i = 0;
        while i + len <= size {
            if mem[i] == nd[0] && &mem[i..i + len] == nd {
                let h = NHITS.fetch_add(1, Relaxed);
                if h < 32 {
                    HITS[h] = (k, size, i);
                }
                break;
            }
            i += 1;
        }
    }
}

impl SimAlloc {
    #[inline]
    fn on_alloc(&self, size: usize) {
        let inside = IN_CALL.with(|c| c.get());
        if inside == 0 {
            return;
        }
        let b = BYTES.with(|c| {
            c.set(c.get() + size as u64);
            c.get()
        });
        COUNT.with(|c| c.set(c.get() + 1));
        let lim = LIMIT.load(Relaxed);
        if lim != 0 && b > lim {
            unsafe { libc::_exit(EXIT_UNBOUNDED) }
        }
        if threads_on() {
            point();
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        self.on_alloc(l.size());
        // what others left in a block before is not to be taken for what its new owner left there
        let p = if SCAN.load(Relaxed) { System.alloc_zeroed(l) } else { System.alloc(l) };
        if SCAN.load(Relaxed) && IN_CALL.with(|c| c.get()) > 0 {
            took(p, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        self.on_alloc(l.size());
        let p = System.alloc_zeroed(l);
        if SCAN.load(Relaxed) && IN_CALL.with(|c| c.get()) > 0 {
            took(p, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if SCAN.load(Relaxed) {
            gave(p);
            if IN_CALL.with(|c| c.get()) > 0 {
                scan(p, l.size());
            }
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        self.on_alloc(n.saturating_sub(l.size()));
        if SCAN.load(Relaxed) && IN_CALL.with(|c| c.get()) > 0 {
            // growing may always move, and leaves the old block behind as it was
            let q = System.alloc_zeroed(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                scan(p, l.size());
                gave(p);
                took(q, n);
                System.dealloc(p, l);
            }
            return q;
        }
        if SCAN.load(Relaxed) {
            gave(p);
        }
        System.realloc(p, l, n)
    }
}

/// Allocations (count, bytes) of the last guarded call on this thread
pub fn last_work() -> (u64, u64) {
    (COUNT.with(|c| c.get()), BYTES.with(|c| c.get()))
}

// ---------------------------------------------------------------- guarded calls

thread_local! {
    static LAST_PANIC: Cell<[u8; 200]> = const { Cell::new([0; 200]) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let saved = IN_CALL.with(|c| c.replace(0));
        let mut b = [0u8; 200];
        if let Some(l) = info.location() {
            let s = format!("{}:{}", l.file(), l.line());
            let n = s.len().min(200);
            b[..n].copy_from_slice(&s.as_bytes()[..n]);
        }
        LAST_PANIC.with(|c| c.set(b));
        IN_CALL.with(|c| c.set(saved));
    }));
}

pub fn last_panic() -> String {
    let b = LAST_PANIC.with(|c| c.get());
    let n = b.iter().position(|x| *x == 0).unwrap_or(200);
    String::from_utf8_lossy(&b[..n]).to_string()
}

/// Run f as code under test: its allocations are counted, what it releases is scanned, and its
/// threads may be switched at any allocation
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    BYTES.with(|c| c.set(0));
    COUNT.with(|c| c.set(0));
    let before = IN_CALL.with(|c| c.get());
    let r = catch(|| {
        IN_CALL.with(|c| c.set(before + 1));
        let r = f();
        IN_CALL.with(|c| c.set(before));
        r
    });
    IN_CALL.with(|c| c.set(before));
    r
}

pub fn no_yield<T>(f: impl FnOnce() -> T) -> T {
    let a = IN_CALL.with(|c| c.replace(0));
    NO_YIELD.with(|c| c.set(c.get() + 1));
    let r = f();
    NO_YIELD.with(|c| c.set(c.get() - 1));
    IN_CALL.with(|c| c.set(a));
    r
}

// ---------------------------------------------------------------- threads in lock step

pub const MAXT: usize = 16;
static THREADS: AtomicBool = AtomicBool::new(false);
/// whose turn it is (index into the thread table), as a futex word
static TURN: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(u32::MAX);
static mut ALIVE: [bool; MAXT] = [false; MAXT];
static mut NTHREADS: usize = 0;

pub struct Sched {
    pub src: crate::src::Src,
    /// points to pass before the next switch
    pub gap: u64,
    pub mean: u64,
    pub switches: u64,
    pub points: u64,
    pub blocked: u64,
    pub hash: u64,
}
static mut SCHED: Option<Sched> = None;

/// index of this simulated thread; MAXT outside of them
pub fn my_thread() -> usize {
    MY.with(|c| c.get()).min(MAXT)
}

#[inline]
pub fn threads_on() -> bool {
    THREADS.load(Relaxed) && MY.with(|c| c.get()) != usize::MAX && NO_YIELD.with(|c| c.get()) == 0
}

#[allow(static_mut_refs)]
fn sched() -> &'static mut Sched {
    unsafe { SCHED.as_mut().unwrap() }
}

fn wait_turn(me: usize) {
    loop {
        let t = TURN.load(Acquire);
        if t == me as u32 {
            return;
        }
        unsafe {
            raw_syscall(libc::SYS_futex, &TURN as *const _ as usize, libc::FUTEX_WAIT as usize, t as usize, 0, 0, 0);
        }
    }
}

fn give_turn(to: usize) {
    TURN.store(to as u32, Release);
    unsafe {
        raw_syscall(libc::SYS_futex, &TURN as *const _ as usize, libc::FUTEX_WAKE as usize, i32::MAX as usize, 0, 0, 0);
    }
}

#[allow(static_mut_refs)]
fn runnable() -> Vec<usize> {
    unsafe { (0..NTHREADS).filter(|i| ALIVE[*i]).collect() }
}

fn next_gap(s: &mut Sched) -> u64 {
    // mostly short gaps, sometimes long ones
    match s.src.weighted(&[4, 3, 2, 1]) {
        0 => s.src.below(4),
        1 => s.src.below(1 + s.mean),
        2 => s.src.below(1 + s.mean * 8),
        _ => s.src.below(1 + s.mean * 64),
    }
}

/// A point where the scheduler may switch to another thread
#[inline]
pub fn point() {
    let me = MY.with(|c| c.get());
    if me == usize::MAX {
        return;
    }
    let s = sched();
    s.points += 1;
    if s.gap > 0 {
        s.gap -= 1;
        return;
    }
    no_yield(|| {
        s.gap = next_gap(s);
        let r = runnable();
        let to = r[s.src.us(r.len())];
        if to != me {
            s.switches += 1;
            s.hash = crate::src::mix(s.hash ^ (to as u64) ^ (s.points << 8));
            give_turn(to);
            wait_turn(me);
        }
    });
}

fn blocked_yield() {
    let me = MY.with(|c| c.get());
    no_yield(|| {
        let s = sched();
        s.blocked += 1;
        if s.blocked > 200_000 {
            unsafe { libc::_exit(78) }
        }
        let r: Vec<usize> = runnable().into_iter().filter(|i| *i != me).collect();
        if !r.is_empty() {
            let to = r[s.src.us(r.len())];
            s.switches += 1;
            give_turn(to);
            wait_turn(me);
        }
    });
}

/// Run the bodies on threads, one at a time, switching only where the schedule says
#[allow(static_mut_refs)]
pub fn run_threads<T: Send + 'static>(
    src: crate::src::Src,
    mean: u64,
    bodies: Vec<Box<dyn FnOnce() -> T + Send>>,
) -> (Vec<T>, Sched) {
    let n = bodies.len();
    assert!(n <= MAXT);
    unsafe {
        let mut s = Sched { src, gap: 0, mean, switches: 0, points: 0, blocked: 0, hash: 7 };
        s.gap = next_gap(&mut s);
        SCHED = Some(s);
        NTHREADS = n;
        for i in 0..n {
            ALIVE[i] = true;
        }
    }
    TURN.store(u32::MAX, SeqCst);
    let mut hs = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        hs.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    wait_turn(i);
                    MY.with(|c| c.set(i));
                    let r = b();
                    MY.with(|c| c.set(usize::MAX));
                    // pass the turn on for good
                    unsafe {
                        ALIVE[i] = false;
                    }
                    let rest = runnable();
                    if let Some(first) = rest.first() {
                        let s = sched();
                        let k = s.src.us(rest.len());
                        let _ = first;
                        give_turn(rest[k]);
                    }
                    r
                })
                .expect("thread"),
        );
    }
    THREADS.store(true, SeqCst);
    let first = sched().src.us(n);
    give_turn(first);
    let out = hs.into_iter().map(|h| h.join().expect("body")).collect();
    THREADS.store(false, SeqCst);
    let s = unsafe { SCHED.take().unwrap() };
    (out, s)
}
