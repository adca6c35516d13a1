//! The seams: everything the code under test could observe that is not its arguments.
//!
//! * heap addresses    - a global allocator with a fixed-address arena and seeded placement policies
//! * hash seeds        - the patched `foldhash` asks `__bnfsim_hash_seed`
//! * system entropy    - getrandom's custom backend, plus libc `getrandom` for std
//! * clock             - `clock_gettime` / `nanosleep`
//! * blocking          - `syscall(SYS_futex)` (every std lock, condvar, park)
//! * preemption points - every allocation and every hash made by simulated code
//!
//! "Simulated context" (a thread-local flag) is on only while code under test or a caller-supplied
//! seam runs on the thread that holds the baton; harness code runs with it off and uses the
//! system allocator.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

// ------------------------------------------------------------------ PRNG
#[derive(Clone, Copy)]
pub struct Rng(pub u64);
impl Rng {
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

// ------------------------------------------------------------------ per-thread environment
/// What one simulated process/thread observes of its surroundings.
#[derive(Clone, Copy, Debug, Default)]
pub struct EnvCfg {
    pub hash_seed: u64,
    pub hash_mode: u8,
    pub entropy_seed: u64,
    /// 0 = LIFO reuse, 1 = FIFO reuse, 2 = never reuse, 3 = coin flip
    pub heap_policy: u8,
    /// random padding between fresh blocks (0 = none)
    pub heap_pad: u8,
    pub heap_seed: u64,
    pub clock_base_s: u64,
    /// 0 = advances with the steps only; 1 = each read finds it up to 50 ms later; 2 = seconds or
    /// minutes; 3 = hours; 4 = as 2, and the wall clock is also set back
    pub clock_jump: u8,
}

thread_local! {
    static SIM: Cell<bool> = const { Cell::new(false) };
    static HASH: Cell<(u64, u8)> = const { Cell::new((0, 0)) };
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
    /// number of entropy requests that still succeed before one fails; u64::MAX = never fails
    static ENTROPY_FAIL_IN: Cell<u64> = const { Cell::new(u64::MAX) };
    static ENTROPY_FAIL_FOR: Cell<u64> = const { Cell::new(0) };
    static ENTROPY_CONST: Cell<Option<u8>> = const { Cell::new(None) };
    static HEAP: Cell<(u8, u8, u64)> = const { Cell::new((0, 0, 0)) };
    static CLOCK: Cell<u64> = const { Cell::new(1_700_000_000) };
    static CLOCK_JUMP: Cell<(u8, u64)> = const { Cell::new((0, 0)) };
    static WALL_BACK: Cell<u64> = const { Cell::new(0) };
}
/// Nanoseconds the monotonic clock has jumped ahead of the step count.
static AHEAD: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_JUMPS: AtomicU64 = AtomicU64::new(0);

/// One reading of a simulated clock, in nanoseconds since its epoch.
fn clock_read(id: i32) -> u64 {
    CLOCK_READS.fetch_add(1, Relaxed);
    let (mode, seed) = CLOCK_JUMP.get();
    if mode > 0 {
        let r = mix(seed, 0x636c6f63);
        CLOCK_JUMP.set((mode, r));
        let by = match mode {
            1 => r % 50_000_000,
            2 | 4 => (r >> 8) % [2_000_000_000u64, 90_000_000_000][(r & 1) as usize],
            _ => (r >> 8) % 40_000_000_000_000,
        };
        AHEAD.fetch_add(by, Relaxed);
        CLOCK_JUMPS.fetch_add(1, Relaxed);
        if mode == 4 && r & 6 == 0 {
            WALL_BACK.set((r >> 16) % 100_000_000_000_000);
        }
    }
    let up = ALLOCS.load(Relaxed) * 1000 + AHEAD.load(Relaxed);
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        (CLOCK.get() * 1_000_000_000 + up).saturating_sub(WALL_BACK.get())
    } else {
        1_000_000_000_000 + up
    }
}

pub fn set_env(c: EnvCfg) {
    HASH.set((c.hash_seed, c.hash_mode));
    ENTROPY.set(c.entropy_seed);
    ENTROPY_FAIL_IN.set(u64::MAX);
    ENTROPY_FAIL_FOR.set(0);
    ENTROPY_CONST.set(None);
    HEAP.set((c.heap_policy, c.heap_pad, c.heap_seed));
    CLOCK.set(c.clock_base_s);
    CLOCK_JUMP.set((c.clock_jump, c.heap_seed));
    WALL_BACK.set(0);
}
pub fn set_entropy_fault(after: u64, for_n: u64) {
    ENTROPY_FAIL_IN.set(after);
    ENTROPY_FAIL_FOR.set(for_n);
}

#[inline]
pub fn in_sim() -> bool {
    SIM.try_with(|s| s.get()).unwrap_or(false)
}
/// Run `f` as simulated code (library code): allocator, entropy, clock and futex seams active.
/// The flag is restored on unwind too.
pub fn sim<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            SIM.set(self.0)
        }
    }
    let _r = Reset(SIM.replace(true));
    f()
}
/// Run `f` as harness code from inside a seam (strategy, callback, sink, allocator).
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            SIM.set(self.0)
        }
    }
    let _r = Reset(SIM.replace(false));
    f()
}

/// Run `f` some frames further down the stack, so that stack addresses differ too.
pub fn deeper<R>(n: u64, f: Box<dyn FnOnce() -> R + '_>) -> R {
    let mut pad = [n as u8; 208];
    std::hint::black_box(&mut pad);
    let r = if n == 0 { f() } else { deeper(n - 1, f) };
    std::hint::black_box(&mut pad);
    r
}

// ------------------------------------------------------------------ counters of seam use
pub static HASH_SEEDS: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_READS: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_FAILS: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_OKS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static FUTEX_WAITS: AtomicU64 = AtomicU64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static ADDR_REUSE: AtomicU64 = AtomicU64::new(0);
/// blocks and bytes allocated by simulated code and not yet released
pub static LIVE_BLOCKS: AtomicU64 = AtomicU64::new(0);
pub static LIVE_BYTES: AtomicU64 = AtomicU64::new(0);
/// basic blocks executed by library code, and how many a run may execute
pub static WORK: AtomicU64 = AtomicU64::new(0);
pub const WORK_BUDGET: u64 = 4_000_000_000;
pub static WORK_LIMIT: AtomicU64 = AtomicU64::new(WORK_BUDGET);
/// rule out "never reuse an address" (long histories would use up the address space)
pub static REUSE: AtomicBool = AtomicBool::new(false);
/// allocation (step) budget of this run; exceeding it is reported by `budget_exceeded`
pub static ALLOC_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

#[unsafe(no_mangle)]
pub fn __bnfsim_hash_seed() -> (u64, u8) {
    let (s, m) = HASH.try_with(|h| h.get()).unwrap_or((0, 0));
    let next = mix(s, 0x68617368);
    let _ = HASH.try_with(|h| h.set((next, m)));
    HASH_SEEDS.fetch_add(1, Relaxed);
    (s, m)
}

/// Every hash computed by library code is a step and a preemption point.
#[unsafe(no_mangle)]
pub fn __bnfsim_hash_step() {
    if in_sim() {
        step();
    }
}
#[inline]
fn step() {
    let n = ALLOCS.fetch_add(1, Relaxed);
    if n >= ALLOC_LIMIT.load(Relaxed) {
        harness(|| crate::run::budget_exceeded("steps"));
    }
    crate::sched::alloc_point();
}

fn entropy_fill(dest: *mut u8, len: usize) -> bool {
    ENTROPY_READS.fetch_add(1, Relaxed);
    let left = ENTROPY_FAIL_IN.get();
    if left != u64::MAX {
        if left > 0 {
            ENTROPY_FAIL_IN.set(left - 1);
        } else if ENTROPY_FAIL_FOR.get() > 0 {
            ENTROPY_FAIL_FOR.set(ENTROPY_FAIL_FOR.get() - 1);
            ENTROPY_FAILS.fetch_add(1, Relaxed);
            return false;
        }
    }
    ENTROPY_OKS.fetch_add(1, Relaxed);
    let mut r = Rng(ENTROPY.get());
    for i in 0..len {
        let b = match ENTROPY_CONST.get() {
            Some(b) => b,
            None => (r.next() >> 13) as u8,
        };
        unsafe { *dest.add(i) = b };
    }
    ENTROPY.set(r.next());
    true
}

#[unsafe(no_mangle)]
unsafe extern "Rust" fn __getrandom_v03_custom(
    dest: *mut u8,
    len: usize,
) -> Result<(), getrandom::Error> {
    if in_sim() {
        if entropy_fill(dest, len) { Ok(()) } else { Err(getrandom::Error::new_custom(7)) }
    } else {
        let n = unsafe { raw::syscall6(libc::SYS_getrandom, dest as i64, len as i64, 0, 0, 0, 0) };
        if n == len as i64 { Ok(()) } else { Err(getrandom::Error::UNEXPECTED) }
    }
}

/// libc `getrandom`, as used by std for its hash map keys.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if in_sim() {
        entropy_fill(buf, len);
        return len as isize;
    }
    let r = unsafe { raw::syscall6(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0) };
    if r < 0 {
        unsafe { *libc::__errno_location() = -r as i32 };
        return -1;
    }
    r as isize
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if in_sim() {
        let ns = clock_read(id);
        unsafe {
            (*ts).tv_sec = (ns / 1_000_000_000) as i64;
            (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        }
        return 0;
    }
    let r = unsafe { raw::syscall6(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0) };
    if r < 0 {
        unsafe { *libc::__errno_location() = -r as i32 };
        return -1;
    }
    0
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if in_sim() {
        // simulated sleep: the clock jumps, the baton may move
        AHEAD.fetch_add(unsafe { (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64 } + 1000, Relaxed);
        crate::sched::yield_point();
        return 0;
    }
    let r = unsafe { raw::syscall6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0) };
    if r < 0 { -1 } else { 0 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if in_sim() {
        return unsafe { nanosleep(req, rem) };
    }
    let r = unsafe { raw::syscall6(libc::SYS_clock_nanosleep, id as i64, fl as i64, req as i64, rem as i64, 0, 0) };
    -r as i32
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_sim() {
        crate::sched::yield_point();
        return 0;
    }
    unsafe { raw::syscall6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32 }
}

/// Process ids differ from process to process: part of the environment.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getpid() -> i32 {
    if in_sim() {
        return 1000 + (CLOCK.get() % 30_000) as i32;
    }
    unsafe { raw::syscall6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as i32 }
}

/// libc `syscall`: std reaches futex(2) only through it.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && in_sim() {
        let op = (b as i32) & libc::FUTEX_CMD_MASK;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let cur = unsafe { std::ptr::read_volatile(a as *const u32) };
            if cur != c as u32 {
                unsafe { *libc::__errno_location() = libc::EAGAIN };
                return -1;
            }
            FUTEX_WAITS.fetch_add(1, Relaxed);
            let timed = d != 0;
            if crate::sched::block_on(a as usize, timed) {
                return 0;
            }
            unsafe { *libc::__errno_location() = libc::ETIMEDOUT };
            return -1;
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            return crate::sched::wake(a as usize, c as i32 as i64);
        }
    }
    let r = unsafe { raw::syscall6(n, a, b, c, d, e, f) };
    if r < 0 && r > -4096 {
        unsafe { *libc::__errno_location() = -r as i32 };
        return -1;
    }
    r
}

pub mod raw {
    pub unsafe fn syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        let r: i64;
        unsafe {
            std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
                in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
        }
        r
    }
    pub fn futex_wait(w: &std::sync::atomic::AtomicU32, val: u32) {
        unsafe { syscall6(libc::SYS_futex, w.as_ptr() as i64, 128, val as i64, 0, 0, 0) };
    }
    pub fn futex_wake(w: &std::sync::atomic::AtomicU32) {
        unsafe { syscall6(libc::SYS_futex, w.as_ptr() as i64, 129, 1, 0, 0, 0) };
    }
}

// ------------------------------------------------------------------ arena allocator
const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 6 << 30;
const NCLASS: usize = 64 + 32;

struct Arena {
    lock: AtomicBool,
    on: AtomicBool,
    bump: AtomicUsize,
    limit: AtomicUsize,
    head: [AtomicUsize; NCLASS],
    tail: [AtomicUsize; NCLASS],
}
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicUsize = AtomicUsize::new(0);
static ARENA: Arena = Arena {
    lock: AtomicBool::new(false),
    on: AtomicBool::new(false),
    bump: AtomicUsize::new(BASE),
    limit: AtomicUsize::new(BASE + (1 << 30)),
    head: [Z; NCLASS],
    tail: [Z; NCLASS],
};

/// Map the arena (once, in the parent, before any fork).
pub fn arena_init() {
    let p = unsafe {
        libc::mmap(
            BASE as *mut libc::c_void,
            SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        )
    };
    assert!(p as usize == BASE, "arena mmap failed");
}
/// Switch the arena on (in a forked child).
pub fn arena_on(limit_bytes: usize) {
    ARENA.limit.store(BASE + limit_bytes.min(SIZE - (64 << 20)), Relaxed);
    ARENA.on.store(true, Relaxed);
}
pub fn arena_used() -> usize {
    ARENA.bump.load(Relaxed) - BASE
}

#[inline]
fn class_of(size: usize) -> (usize, usize) {
    if size <= 1024 {
        let c = size.max(1).div_ceil(16);
        (c - 1, c * 16)
    } else {
        let s = size.next_power_of_two();
        (64 + s.trailing_zeros() as usize - 10, s)
    }
}

impl Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 {
            LIVE_BLOCKS.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(l.size() as u64, Relaxed);
            return unsafe { System.alloc(l) };
        }
        let (c, sz) = class_of(l.size());
        while self.lock.swap(true, std::sync::atomic::Ordering::Acquire) {
            std::hint::spin_loop();
        }
        let (policy, pad, seed) = HEAP.try_with(|h| h.get()).unwrap_or((0, 0, 0));
        let mut reuse = policy != 2 || REUSE.load(Relaxed);
        let mut next_seed = seed;
        if policy == 3 || pad > 0 {
            next_seed = mix(seed, 1);
            if policy == 3 {
                reuse = next_seed & 1 == 0;
            }
            let _ = HEAP.try_with(|h| h.set((policy, pad, next_seed)));
        }
        let h = self.head[c].load(Relaxed);
        let p = if reuse && h != 0 {
            ADDR_REUSE.fetch_add(1, Relaxed);
            let n = unsafe { *(h as *const usize) };
            self.head[c].store(n, Relaxed);
            if n == 0 {
                self.tail[c].store(0, Relaxed);
            }
            h
        } else {
            let gap = if pad > 0 { ((next_seed >> 8) as usize % (pad as usize + 1)) * 16 } else { 0 };
            let p = self.bump.load(Relaxed) + gap;
            self.bump.store(p + sz, Relaxed);
            p
        };
        let over = self.bump.load(Relaxed) > self.limit.load(Relaxed);
        self.lock.store(false, std::sync::atomic::Ordering::Release);
        if over {
            harness(|| crate::run::budget_exceeded("memory"));
        }
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: usize, l: Layout) {
        let (c, _) = class_of(l.size());
        while self.lock.swap(true, std::sync::atomic::Ordering::Acquire) {
            std::hint::spin_loop();
        }
        let (policy, _, _) = HEAP.try_with(|h| h.get()).unwrap_or((0, 0, 0));
        unsafe {
            if policy == 1 {
                *(p as *mut usize) = 0;
                let t = self.tail[c].load(Relaxed);
                if t != 0 {
                    *(t as *mut usize) = p;
                } else {
                    self.head[c].store(p, Relaxed);
                }
                self.tail[c].store(p, Relaxed);
            } else {
                let h = self.head[c].load(Relaxed);
                *(p as *mut usize) = h;
                if h == 0 {
                    self.tail[c].store(p, Relaxed);
                }
                self.head[c].store(p, Relaxed);
            }
        }
        self.lock.store(false, std::sync::atomic::Ordering::Release);
    }
}

pub struct SimAlloc;

#[inline]
fn is_arena(p: usize) -> bool {
    (BASE..BASE + SIZE).contains(&p)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if in_sim() {
            step();
            if ARENA.on.load(Relaxed) {
                LIVE_BLOCKS.fetch_add(1, Relaxed);
                LIVE_BYTES.fetch_add(l.size() as u64, Relaxed);
                return unsafe { ARENA.alloc(l) };
            }
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if is_arena(p as usize) {
            LIVE_BLOCKS.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(l.size() as u64, Relaxed);
            unsafe { ARENA.dealloc(p as usize, l) }
        } else {
            unsafe { System.dealloc(p, l) }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if in_sim() || is_arena(p as usize) {
            let nl = unsafe { Layout::from_size_align_unchecked(new, l.align()) };
            unsafe {
                let q = self.alloc(nl);
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                    self.dealloc(p, l);
                }
                q
            }
        } else {
            unsafe { System.realloc(p, l, new) }
        }
    }
}
