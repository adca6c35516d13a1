//! One simulated run: the choice stream, the event log, the counters and the verdict. All of it
//! lives in memory shared with the parent so that nothing is lost when the run crashes.

use crate::env::{self, Rng, mix};
use std::cell::UnsafeCell;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::Relaxed};

pub const MAX_CHOICES: usize = 1 << 18;
pub const MSG_CAP: usize = 1 << 14;
pub const LOG_CAP: usize = 1 << 20;
pub const NCOUNT: usize = 96;

pub const OUT_RUNNING: u32 = 0;
pub const OUT_OK: u32 = 1;
pub const OUT_VIOLATION: u32 = 2;
pub const OUT_SKIP: u32 = 3;
/// What a peer process prints first when its run was given up.
pub const PEER_SKIPPED: &str = "(peer skipped)\n";

macro_rules! counters {
    ($($id:ident $n:literal $name:literal),* $(,)?) => {
        $(pub const $id: usize = $n;)*
        pub const COUNTER_NAMES: &[(usize, &str)] = &[$(($n, $name)),*];
    };
}
counters! {
    C_SWITCH 0 "thread_switches",
    C_BLOCK 1 "futex_blocks",
    F_REJECT 2 "fault:callback_rejection",
    F_REFUSE 3 "fault:strategy_refusal",
    F_PANIC_CB 4 "fault:callback_panic",
    F_PANIC_STRAT 5 "fault:strategy_panic",
    F_PANIC_SINK 6 "fault:sink_panic",
    F_SINK_ERR 7 "fault:sink_error",
    F_ABANDON 8 "fault:iteration_abandoned",
    F_ENTROPY 9 "fault:entropy_failure",
    F_SHORT_WRITE 10 "fault:short_write",
    F_EINTR 11 "fault:interrupted_io",
    F_IO_ERR 12 "fault:write_error_or_full_disk",
    F_TORN 13 "fault:torn_image",
    F_FLIP 14 "fault:damaged_byte",
    F_SHORT_READ 15 "fault:short_read",
    F_ENV 16 "fault:environment_switch",
    F_MOVE 17 "fault:grammar_moved_or_reallocated",
    F_REENTRY 18 "fault:reentrant_call",
    F_RETUNE 19 "fault:knob_changed_midway",
    F_TRACE_ON 20 "fault:subscriber_interest_change",
    F_LOST_WRITE 21 "fault:unsynced_write_lost",
    P_PARSE 24 "probe:parses_opened",
    P_TREES 25 "probe:trees_yielded",
    P_AMBIG 26 "probe:ambiguous_inputs",
    P_NOPARSE 27 "probe:inputs_without_parse",
    P_NULLABLE 28 "probe:nullable_grammars",
    P_LEFTREC 29 "probe:left_recursive_grammars",
    P_CYCLIC 30 "probe:cyclic_grammars",
    P_EXTENDED 31 "probe:extended_syntax_grammars",
    P_GEN 32 "probe:generations",
    P_GEN_ERR 33 "probe:generation_errors",
    P_CHOOSE 34 "probe:strategy_choices",
    P_CB 35 "probe:callback_calls",
    P_DEEP 36 "probe:deep_trees",
    P_UNDEF 37 "probe:grammars_with_undefined_names",
    P_MULTIUNDEF 38 "probe:grammars_with_several_undefined_names",
    P_LONGREJ 39 "probe:rejection_runs_over_100",
    P_DEADBRANCH 40 "probe:dead_branches_entered",
    P_UNPROD 41 "probe:unproductive_starts",
    P_FULLCOVER 42 "probe:full_coverage_reached",
    P_OPS 43 "probe:operations",
    P_HEALED 44 "probe:progress_checked_after_faults_stop",
    P_LIVE2 45 "probe:two_or_more_live_iterations",
    P_RELOAD 46 "probe:reloads",
    P_ACKED 47 "probe:acknowledged_saves",
    P_BIGW 48 "probe:extreme_weights",
    P_ATLIMIT 49 "probe:choices_at_depth_limit",
    P_DUPLHS 50 "probe:repeated_left_hand_sides",
    P_LONGIN 51 "probe:long_inputs",
    P_SPANS 52 "probe:spans_and_events_seen",
    P_STAT 53 "probe:distribution_checks",
    P_RESUME 54 "probe:iterations_resumed_after_others_ran",
    P_PEER 55 "probe:compared_with_a_build_without_instrumentation",
    C_HASHSEED 56 "seam:hash_seeds_drawn",
    C_ENTROPY 57 "seam:entropy_reads",
    C_CLOCK 58 "seam:clock_reads",
    C_ALLOC 59 "seam:allocation_steps",
    C_REUSE 60 "seam:heap_addresses_reused",
    C_GLOBAL 61 "seam:accesses_to_writable_globals",
    F_STALL 62 "fault:stalled_threads",
    P_SERIES 63 "probe:parse_series_in_reused_places",
    P_STRETCH 64 "probe:stretched_grammars",
    P_EDGESEED 65 "probe:edge_seeds",
    F_CLOCK 66 "fault:clock_jumps",
    F_EDIT 67 "fault:grammar_edited_or_replaced_in_place",
    P_SLOT 68 "probe:in_place_states_checked",
    P_WIDE 69 "probe:wide_ambiguous_rules",
    P_HUGE 70 "probe:inputs_over_64k",
    P_ROUNDS 71 "probe:rounds_repeated",
    P_EXPRESS 72 "probe:early_and_late_prefixes",
    P_WAYS 73 "probe:iterations_read_by_other_methods",
    P_BULK 76 "probe:bulk_inputs",
    C_BLOCKS 75 "seam:basic_blocks_of_library_code",
    P_ENDLESS 77 "probe:endless_iterations",
    P_WANTED 78 "probe:derivations_awaited_in_endless_iterations",
    P_CROWD 74 "probe:inputs_with_hundreds_of_derivations",
}

#[repr(C)]
pub struct Shared {
    pub outcome: u32,
    pub class_len: u32,
    pub class: [u8; 64],
    pub msg_len: u32,
    pub msg: [u8; MSG_CAP],
    pub n_choices: u32,
    pub choices: [u32; MAX_CHOICES],
    pub counters: [u64; NCOUNT],
    pub log_hash: u64,
    pub sched_hash: u64,
    pub case_hash: u64,
    pub nontrivial: u32,
    pub soft: u32,
    pub log_len: u32,
    pub log: [u8; LOG_CAP],
}

struct State {
    sh: *mut Shared,
    rng: Rng,
    replay: Option<Vec<u32>>,
    pos: usize,
    verbose: bool,
    buf: String,
    /// a fixed side stream: its choices are derived, not drawn and recorded one by one
    sub: Option<Rng>,
}
struct Cell0(UnsafeCell<Option<State>>);
unsafe impl Sync for Cell0 {}
static STATE: Cell0 = Cell0(UnsafeCell::new(None));
static SOFT: AtomicU32 = AtomicU32::new(0);
static HARD: AtomicU64 = AtomicU64::new(u64::MAX);
const SOFT_STEPS: u64 = 20_000;

fn st() -> &'static mut State {
    unsafe { (*STATE.0.get()).as_mut().expect("run state") }
}
fn sh() -> &'static mut Shared {
    unsafe { &mut *st().sh }
}

pub fn new_shared() -> *mut Shared {
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut Shared
}

/// Child side: start a run.
pub fn begin(shared: *mut Shared, seed: u64, replay: Option<Vec<u32>>, verbose: bool) {
    unsafe {
        *STATE.0.get() = Some(State { sh: shared, rng: Rng(seed), replay, pos: 0, verbose, buf: String::new(), sub: None });
    }
    SOFT.store(0, Relaxed);
    HARD.store(env::ALLOC_LIMIT.load(Relaxed), Relaxed);
}

/// A fresh step budget (a new round of a repeated history).
pub fn refill(steps: u64) {
    let n = env::ALLOCS.load(Relaxed) + steps;
    env::ALLOC_LIMIT.store(n, Relaxed);
    HARD.store(n, Relaxed);
    env::WORK_LIMIT.store(env::WORK.load(Relaxed) + env::WORK_BUDGET, Relaxed);
    REPEATED.store(true, Relaxed);
}
static REPEATED: AtomicBool = AtomicBool::new(false);
/// This workload is one round of many: no single heavy ones, please.
pub fn repeated() -> bool {
    REPEATED.load(Relaxed)
}

// ------------------------------------------------------------------ choices
/// Uniform in `0..n`; 0 is by convention the simplest choice.
pub fn choose(n: usize) -> usize {
    debug_assert!(n > 0);
    let s = st();
    if let Some(r) = &mut s.sub {
        return ((r.next() >> 11) as u128 * n as u128 >> 53) as usize;
    }
    let v = match &s.replay {
        Some(r) => {
            let v = r.get(s.pos).copied().unwrap_or(0) as usize;
            v.min(n - 1)
        }
        None => ((s.rng.next() >> 11) as u128 * n as u128 >> 53) as usize,
    };
    s.pos += 1;
    let h = sh();
    let k = h.n_choices as usize;
    if k < MAX_CHOICES {
        h.choices[k] = v as u32;
        h.n_choices += 1;
    } else {
        finish_now(OUT_SKIP);
    }
    v
}
/// Run `f` with all its choices taken from a stream fixed by `seed`: the same every time.
pub fn substream<R>(seed: u64, f: impl FnOnce() -> R) -> R {
    st().sub = Some(Rng(seed));
    let r = f();
    st().sub = None;
    r
}
/// True with probability num/den; 0 (the default when replay runs out) is false.
pub fn chance(num: usize, den: usize) -> bool {
    choose(den) >= den - num
}
/// lo..=hi
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choose(hi - lo + 1)
}
pub fn u64_() -> u64 {
    let a = choose(1 << 30) as u64;
    let b = choose(1 << 30) as u64;
    if a == 0 && b == 0 { 0 } else { mix(a, b) }
}
pub fn pick<'a, T>(v: &'a [T]) -> &'a T {
    &v[choose(v.len())]
}
/// Pick an index by integer weights.
pub fn weighted(w: &[usize]) -> usize {
    let total: usize = w.iter().sum();
    let mut r = choose(total);
    for (i, x) in w.iter().enumerate() {
        if r < *x {
            return i;
        }
        r -= x;
    }
    0
}

/// The choices drawn so far (for handing to a peer process).
pub fn drawn() -> Vec<u32> {
    let h = sh();
    h.choices[..h.n_choices as usize].to_vec()
}

// ------------------------------------------------------------------ counters, log
pub fn count(i: usize) {
    sh().counters[i] += 1;
}
/// How often `i` was counted so far in this run.
pub fn sh_count(i: usize) -> u64 {
    sh().counters[i]
}
pub fn count_n(i: usize, n: u64) {
    sh().counters[i] += n;
}
fn fold(h: &mut u64, bytes: &[u8]) {
    let mut x = *h ^ 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        x = (x ^ *b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    *h = x.rotate_left(17) ^ (bytes.len() as u64);
}
pub fn event_fmt(a: std::fmt::Arguments) {
    let s = st();
    s.buf.clear();
    let _ = s.buf.write_fmt(a);
    let h = sh();
    fold(&mut h.log_hash, s.buf.as_bytes());
    if s.verbose {
        let b = s.buf.as_bytes();
        let k = h.log_len as usize;
        if k + b.len() + 1 < LOG_CAP {
            h.log[k..k + b.len()].copy_from_slice(b);
            h.log[k + b.len()] = b'\n';
            h.log_len = (k + b.len() + 1) as u32;
        }
    }
}
#[macro_export]
macro_rules! ev {
    ($($a:tt)*) => { $crate::run::event_fmt(format_args!($($a)*)) };
}
pub fn sched_event(from: usize, to: usize, allocs: u64) {
    let h = sh();
    h.sched_hash = mix(h.sched_hash, (from as u64) << 48 | (to as u64) << 40 | allocs);
    event_fmt(format_args!("sched t{from} -> t{to} after {allocs} points"));
}
/// Fold something into the schedule/interleaving signature.
pub fn sig(x: u64) {
    let h = sh();
    h.sched_hash = mix(h.sched_hash, x);
}
/// Fold the case (grammar, input, workload) into the case signature.
pub fn case_sig(s: &str) {
    fold(&mut sh().case_hash, s.as_bytes());
}
pub fn nontrivial() {
    sh().nontrivial = 1;
}

// ------------------------------------------------------------------ verdicts
fn finish_now(outcome: u32) -> ! {
    let h = sh();
    flush_counters();
    h.outcome = outcome;
    unsafe { libc::_exit(0) }
}
fn flush_counters() {
    let h = sh();
    h.counters[C_HASHSEED] = env::HASH_SEEDS.load(Relaxed);
    h.counters[C_ENTROPY] = env::ENTROPY_READS.load(Relaxed);
    h.counters[F_ENTROPY] = env::ENTROPY_FAILS.load(Relaxed);
    h.counters[C_CLOCK] = env::CLOCK_READS.load(Relaxed);
    h.counters[F_CLOCK] = env::CLOCK_JUMPS.load(Relaxed);
    h.counters[C_ALLOC] = env::ALLOCS.load(Relaxed);
    h.counters[C_BLOCKS] = env::WORK.load(Relaxed);
    h.counters[C_REUSE] = env::ADDR_REUSE.load(Relaxed);
}
pub fn finish_ok() -> ! {
    finish_now(OUT_OK)
}
pub fn skip() -> ! {
    finish_now(OUT_SKIP)
}
/// Record a violation and end the run at once (any thread, any depth).
pub fn violate(class: &str, msg: &str) -> ! {
    event_fmt(format_args!("VIOLATION [{class}] {msg}"));
    let h = sh();
    let c = class.as_bytes();
    let n = c.len().min(64);
    h.class[..n].copy_from_slice(&c[..n]);
    h.class_len = n as u32;
    let m = msg.as_bytes();
    let n = m.len().min(MSG_CAP);
    h.msg[..n].copy_from_slice(&m[..n]);
    h.msg_len = n as u32;
    finish_now(OUT_VIOLATION)
}
#[macro_export]
macro_rules! violate {
    ($class:expr, $($a:tt)*) => { $crate::run::violate($class, &format!($($a)*)) };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($a:tt)*) => {
        if !$cond { $crate::run::violate($class, &format!($($a)*)) }
    };
}
pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".to_string()
    }
}
pub fn violate_panic(p: &(dyn std::any::Any + Send)) -> ! {
    violate("panic", &format!("unexpected panic: {}", panic_text(p)))
}

/// Exceeding the step/memory budget is a violation unless the workload declared the work open-ended:
/// then the run gets a small budget and ends without a verdict when it is used up.
pub struct Soft(());
impl Soft {
    pub fn when(open_ended: bool) -> Option<Soft> {
        if !open_ended {
            return None;
        }
        if SOFT.fetch_add(1, Relaxed) == 0 {
            env::ALLOC_LIMIT.store((env::ALLOCS.load(Relaxed) + SOFT_STEPS).min(HARD.load(Relaxed)), Relaxed);
        }
        sh().soft += 1;
        Some(Soft(()))
    }
}
impl Drop for Soft {
    fn drop(&mut self) {
        sh().soft -= 1;
        if SOFT.fetch_sub(1, Relaxed) == 1 {
            env::ALLOC_LIMIT.store(HARD.load(Relaxed), Relaxed);
        }
    }
}
/// A smaller step budget, and using it up is a violation: progress is due within so many steps.
pub struct Tight(());
impl Tight {
    pub fn within(steps: u64) -> Tight {
        env::ALLOC_LIMIT.store((env::ALLOCS.load(Relaxed) + steps).min(HARD.load(Relaxed)), Relaxed);
        Tight(())
    }
}
impl Drop for Tight {
    fn drop(&mut self) {
        env::ALLOC_LIMIT.store(HARD.load(Relaxed), Relaxed);
    }
}
pub fn budget_exceeded(what: &str) -> ! {
    if SOFT.load(Relaxed) > 0 {
        skip()
    }
    violate("runaway", &format!("an operation exceeded its {what} budget (no progress within the bound)"))
}
