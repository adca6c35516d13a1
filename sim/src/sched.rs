//! Baton scheduler: real OS threads, exactly one of which runs at a time; who runs next is drawn
//! from the choice stream. Preemption points: every allocation and hash of simulated code, every
//! explicit seam crossing (strategy, callback, sink, iterator step, subscriber), every futex wait,
//! and (instrument.sh) every basic block, load and store of the library. What each kind of point
//! counts towards the next preemption is drawn per run (`Grain`).

use crate::env::{harness, in_sim, mix, raw};
use crate::run;
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

const MAXT: usize = 40;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Absent,
    Runnable,
    Blocked(usize),
    /// stalled in caller code until every other thread has finished or stalled
    Stalled,
    Finished,
}

/// Cost of each kind of point against the countdown to the next preemption.
#[derive(Clone, Copy)]
struct Grain {
    alloc: i64,
    block: i64,
    access: i64,
    /// load or store of a writable global
    global: i64,
    /// basic block soon after an access to a writable global (between two such accesses, say)
    near: i64,
}
const COARSE: Grain = Grain { alloc: 1, block: 0, access: 0, global: 0, near: 0 };
const BLOCKS: Grain = Grain { alloc: 4, block: 1, access: 0, global: 16, near: 1 };
const ACCESS: Grain = Grain { alloc: 4, block: 1, access: 1, global: 64, near: 1 };
const GLOBALS: Grain = Grain { alloc: 1, block: 0, access: 0, global: 8, near: 0 };
const NEAR: Grain = Grain { alloc: 0, block: 0, access: 0, global: 1, near: 1 };
/// How many basic blocks after such an access count as near it.
const NEAR_BLOCKS: u32 = 12;
/// A thread that reaches this many points in one slice is preempted even if it drew "run on"
/// (a spinning thread must not starve the one it waits for).
const SLICE_MAX: u64 = 3_000_000;
/// And this many slices ended that way in a row mean that nobody makes progress.
const SPIN_SLICES: u32 = 64;

struct Inner {
    state: [St; MAXT],
    n: usize,
    cur: usize,
    countdown: i64,
    yield_cost: i64,
    grain: Grain,
    near_left: u32,
    gap_cap: usize,
    slice_allocs: u64,
    slice_points: u64,
    spun: u32,
}
struct S(UnsafeCell<Inner>);
unsafe impl Sync for S {}
static INNER: S = S(UnsafeCell::new(Inner {
    state: [St::Absent; MAXT],
    n: 0,
    cur: 0,
    countdown: i64::MAX,
    yield_cost: 1,
    grain: COARSE,
    near_left: 0,
    gap_cap: 4,
    slice_allocs: 0,
    slice_points: 0,
    spun: 0,
}));
static ACTIVE: AtomicBool = AtomicBool::new(false);
#[allow(clippy::declare_interior_mutable_const)]
const W0: AtomicU32 = AtomicU32::new(0);
static WORD: [AtomicU32; MAXT + 1] = [W0; MAXT + 1]; // last = coordinator

fn inner() -> &'static mut Inner {
    // only the baton holder touches it
    unsafe { &mut *INNER.0.get() }
}
fn sleep_on(i: usize) {
    while WORD[i].swap(0, Acquire) == 0 {
        raw::futex_wait(&WORD[i], 0);
    }
}
fn pass_to(i: usize) {
    WORD[i].store(1, Release);
    raw::futex_wake(&WORD[i]);
}

fn draw_gap() -> i64 {
    let cap = inner().gap_cap;
    // 0 = run on until it blocks or ends
    let g = run::choose(cap + 1);
    if g == 0 {
        return i64::MAX;
    }
    let fine = inner().grain.block > 0;
    1 + run::choose(1usize << if fine { 3 * g } else { 2 * g }) as i64
}

fn runnable_from(first: usize) -> ([usize; MAXT], usize) {
    let s = inner();
    let mut out = [0; MAXT];
    let mut k = 0;
    for d in 0..s.n {
        let i = (first + d) % s.n;
        if s.state[i] == St::Runnable {
            out[k] = i;
            k += 1;
        }
    }
    (out, k)
}

fn pick(first: usize) -> Option<usize> {
    let (r, k) = runnable_from(first);
    match k {
        0 => {
            let s = inner();
            // threads that wait for one that merely stalls are blocked by it
            if let Some(b) = s.state[..s.n].iter().position(|x| matches!(x, St::Blocked(_)))
                && s.state[..s.n].contains(&St::Stalled)
            {
                run::violate("blocked-by-stall", &format!("thread {b} is blocked inside the library for as long as another thread stalls in its own callback"));
            }
            let i = s.state[..s.n].iter().position(|x| *x == St::Stalled)?;
            s.state[i] = St::Runnable;
            Some(i)
        }
        1 => Some(r[0]),
        _ => Some(r[run::choose(k)]),
    }
}

fn switch_to(next: usize) {
    let s = inner();
    let me = s.cur;
    run::sched_event(me, next, s.slice_allocs);
    s.slice_allocs = 0;
    s.slice_points = 0;
    s.cur = next;
    s.countdown = draw_gap();
    if next != me {
        run::count(run::C_SWITCH);
        pass_to(next);
        sleep_on(me);
    }
}

#[cold]
fn preempt() {
    harness(|| {
        let s = inner();
        if let Some(n) = pick(s.cur) {
            switch_to(n);
        }
    })
}

#[inline]
fn spend(cost: i64) {
    let s = inner();
    if s.countdown != i64::MAX {
        s.countdown -= cost;
        if s.countdown <= 0 {
            preempt();
        }
    }
}
#[inline]
pub fn alloc_point() {
    if ACTIVE.load(Relaxed) {
        let s = inner();
        s.slice_allocs += 1;
        s.spun = 0;
        let c = s.grain.alloc;
        spend(c);
    }
}

/// Explicit scheduling point at a seam.
pub fn yield_point() {
    if ACTIVE.load(Relaxed) {
        let s = inner();
        s.slice_allocs += 1;
        s.spun = 0;
        let c = s.yield_cost * s.grain.alloc;
        spend(c);
    }
}

#[cold]
fn spinning() {
    harness(|| {
        let s = inner();
        s.slice_points = 0;
        s.spun += 1;
        if s.spun > SPIN_SLICES {
            run::violate("livelock", "the simulated threads keep running inside the library without ever making progress");
        }
    });
    preempt();
}
#[inline]
fn fine_point(cost: fn(&Grain) -> i64) {
    if ACTIVE.load(Relaxed) && in_sim() {
        let s = inner();
        s.slice_points += 1;
        if s.slice_points > SLICE_MAX {
            spinning();
            return;
        }
        let c = cost(&s.grain);
        if c > 0 {
            spend(c);
        }
    }
}
unsafe extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[inline]
fn access_point(p: usize) {
    if ACTIVE.load(Relaxed) {
        let lo = &raw const __data_start as usize;
        let hi = &raw const _end as usize;
        if (lo..hi).contains(&p) {
            run::count(run::C_GLOBAL);
            inner().near_left = NEAR_BLOCKS;
            fine_point(|g| g.global);
        } else {
            fine_point(|g| g.access);
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    // one thread runs at a time: a plain increment is enough
    let n = crate::env::WORK.load(Relaxed) + 1;
    crate::env::WORK.store(n, Relaxed);
    if n >= crate::env::WORK_LIMIT.load(Relaxed) {
        harness(|| run::budget_exceeded("work"));
    }
    if ACTIVE.load(Relaxed) && inner().near_left > 0 {
        inner().near_left -= 1;
        fine_point(|g| g.near);
    } else {
        fine_point(|g| g.block);
    }
}
macro_rules! access {
    ($($n:ident)*) => { $(
        #[unsafe(no_mangle)]
        pub extern "C" fn $n(p: usize) {
            access_point(p);
        }
    )* };
}
access! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}

/// The calling thread stalls inside caller code until no other thread can run any more: the
/// others must be able to finish without it.
pub fn stall() {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    harness(|| {
        let s = inner();
        let me = s.cur;
        s.state[me] = St::Stalled;
        match pick(me) {
            Some(n) => {
                run::count(run::F_STALL);
                switch_to(n);
            }
            None => s.state[me] = St::Runnable,
        }
    })
}

/// Simulated futex wait. False = timed out.
pub fn block_on(addr: usize, timed: bool) -> bool {
    harness(|| {
        run::count(run::C_BLOCK);
        if !ACTIVE.load(Relaxed) {
            if timed {
                return false;
            }
            run::violate("deadlock", "the only running thread blocks for ever inside the library");
        }
        let s = inner();
        let me = s.cur;
        s.state[me] = St::Blocked(addr);
        match pick(me) {
            Some(n) => {
                switch_to(n);
                true
            }
            None if timed => {
                s.state[me] = St::Runnable;
                false
            }
            None => run::violate("deadlock", "every simulated thread is blocked inside the library"),
        }
    })
}

pub fn wake(addr: usize, n: i64) -> i64 {
    harness(|| {
        if !ACTIVE.load(Relaxed) {
            return 0;
        }
        let s = inner();
        let mut k = 0;
        for st in s.state.iter_mut() {
            if k < n && *st == St::Blocked(addr) {
                *st = St::Runnable;
                k += 1;
            }
        }
        k
    })
}

pub fn current() -> usize {
    inner().cur
}
pub fn active() -> bool {
    ACTIVE.load(Relaxed)
}

struct SendPtr<T>(T);
unsafe impl<T> Send for SendPtr<T> {}
impl<T> SendPtr<T> {
    fn take(self) -> T {
        self.0
    }
}

/// Run the bodies as simulated threads to completion under the drawn schedule.
/// Bodies run in harness context and enter `env::sim` around library calls.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce()>>, gap_cap: usize, yield_cost: i64) {
    assert!(!ACTIVE.load(Relaxed) && bodies.len() <= MAXT);
    let n = bodies.len();
    {
        let s = inner();
        s.n = n;
        s.state = [St::Absent; MAXT];
        s.gap_cap = gap_cap;
        s.yield_cost = yield_cost;
        s.slice_allocs = 0;
        s.slice_points = 0;
        s.spun = 0;
        s.near_left = 0;
        s.grain = [COARSE, BLOCKS, ACCESS, GLOBALS, NEAR][run::weighted(&[4, 2, 1, 1, 2])];
    }
    let mut handles = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        let b = SendPtr(b);
        inner().state[i] = St::Runnable;
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let b = b.take();
                sleep_on(i);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                if let Err(p) = r {
                    run::violate_panic(&p);
                }
                inner().state[i] = St::Finished;
                pass_to(MAXT);
            })
            .expect("spawn");
        handles.push(Some(h));
    }
    ACTIVE.store(true, SeqCst);
    let mut first = 0;
    loop {
        let Some(next) = pick(first) else {
            if inner().state[..n].iter().all(|s| *s == St::Finished) {
                break;
            }
            run::violate("deadlock", "remaining simulated threads are all blocked");
        };
        let s = inner();
        s.cur = next;
        s.countdown = draw_gap();
        run::sched_event(MAXT, next, 0);
        pass_to(next);
        sleep_on(MAXT);
        // a thread finished: let it really exit (thread-local destructors) before going on
        let done = inner().cur;
        if let Some(h) = handles[done].take() {
            let _ = h.join();
        }
        first = done;
    }
    ACTIVE.store(false, SeqCst);
}

#[allow(dead_code)]
pub fn noop(_: u64) -> u64 {
    mix(0, 0)
}
