pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c09;
pub mod c10;
pub mod c12;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod common;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    /// simulated runs per tier (quick, thorough)
    pub runs: (u64, u64),
    pub rule: &'static str,
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", run: c01::run, runs: (60000, 1500000), rule: "A case is 1-3 random or template grammars (parts, BNF, ABNF, JSON; groups, optionals, nullable, left-recursive, cyclic, ambiguous), inputs and a drawn session schedule of open/next/drop/resume steps over several iterations; each yielded tree is judged against an independent derivation enumerator and the sequence against a solo run. Non-trivial: at least one parse was opened. Distinct: by hash of grammars, inputs and session plan." },
    Prop { id: "C02", run: c02::run, runs: (120000, 2000000), rule: "A case is a pool of 1-3 grammars and a script of 2-8 operations (parse, validate, build, format, serialise, read text, generate, clone, rebuild) executed in two drawn environments (hash seeds and hash quality, heap policy, stack depth, pid, clock with jumps between any two readings, entropy or blackout, prior operations, grammar places edited or replaced in place); all observable results must be equal, and right by the model where it judges. Non-trivial: every run. Distinct: by hash of grammars and operations." },
    Prop { id: "C03", run: c03::run, runs: (100000, 2000000), rule: "A case is a history of seeded generations (four entry points, built-in strategies, callbacks) on grammars that are moved, cloned, dropped and rebuilt, executed again interleaved with other generations and on other threads in another environment with entropy failing; outcomes and RNG positions must be equal. Non-trivial: at least one generation ran. Distinct: by hash of grammars and history." },
    Prop { id: "C04", run: c04::run_c04, runs: (160000, 4000000), rule: "A case is a grammar and a drawn plan of strategy choices, refusals, panics and callback verdicts (rejection bursts, reentrancy); the observed sequence of choose and callback calls is checked step by step against a reference machine. Non-trivial: the strategy was asked at least once. Distinct: by hash of grammar and plan." },
    Prop { id: "C05", run: c05::run, runs: (100000, 2000000), rule: "A case is a pool of grammars, a set of open iterations, trees and parsers, and a drawn history of caller panics (1-40: in a strategy at its n-th question, in a callback at its n-th verdict, in a sink at its n-th write, in a serde writer), each followed by operations on everything that was alive; all results, iterations, trees and grammars must equal those of an undisturbed run. Non-trivial: at least one panic reached the caller. Distinct: by hash of grammars, operations and strikes." },
    Prop { id: "C06", run: c06::run_c06, runs: (200000, 4000000), rule: "A case is a set of rules, a depth limit and a drawn history of depth-bounded choices with drawn seeds or entropy; each choice is checked against the rule. Non-trivial: every run. Distinct: by hash of rules, limit and history." },
    Prop { id: "C07", run: c06::run_c07, runs: (160000, 4000000), rule: "A case is a set of grammars and a drawn history of coverage-guided choices, with moves, clones, reloads, rejections, refusals and panics between them, replayed against a model of the seen set. Non-trivial: every run. Distinct: by hash of rules and history." },
    Prop { id: "C08", run: c06::run_c08, runs: (120000, 2500000), rule: "A case is a set of rules, a weight history over the whole u32 range and a drawn choice history; impossible picks are violations, and frequencies over fixed sample sizes are tested at error rates below 1e-9. Non-trivial: every run. Distinct: by hash of rules and weights." },
    Prop { id: "C09", run: c09::run, runs: (80000, 1500000), rule: "A case is a drawn order of unseeded generations over threads and instances with entropy streams and outages; sentences of 72 coin flips may never repeat or come from an empty entropy source. Non-trivial: every run. Distinct: by hash of call orders and grammars." },
    Prop { id: "C10", run: c10::run, runs: (60000, 1200000), rule: "A case is a set of grammars, parts and parse trees (also grafted and deep ones) and a drawn list of formatting jobs into sinks that fail at a write or byte, deliver partially, panic, short-write, are interrupted, or format reentrantly, on 1-3 interleaved threads. Non-trivial: every run. Distinct: by hash of grammars and jobs." },
    Prop { id: "C11", run: c02::run_threads, runs: (100000, 2000000), rule: "A case is 1-2 shared grammars and 2-8 threads with scripts of 1-4 operations under a drawn schedule (preemption at any basic block, load or store of the library, allocations, hashes, callbacks, iterator steps, futex waits; stalled threads); each result is compared with a solo run and the model. Non-trivial: every run. Distinct: by hash of grammars and scripts; interleavings by the switch sequence." },
    Prop { id: "C12", run: c12::run, runs: (150000, 3000000), rule: "A case is a grammar and a drawn history of saves (serde JSON, pretty JSON, text) on a simulated disk with short writes, interrupts, full disk, crash, lost blocks, followed by loads with short, interrupted or failing reads, truncations and byte damage. Non-trivial: every run. Distinct: by hash of grammar and fault plan." },
    Prop { id: "C13", run: c04::run_c13, runs: (160000, 4000000), rule: "A case is a grammar, often with dead or partly dead rules, and an adversarial plan that prolongs, rejects and steers into dead branches and then stops; progress is measured in expansions against the minimal remaining derivation. Non-trivial: the strategy was asked or a dead start reported. Distinct: by hash of grammar and plan." },
    Prop { id: "C14", run: c14::run, runs: (80000, 1500000), rule: "A case is an operation script run with diagnostics off, then with drawn subscribers (levels, call sites, coin flips, changing between calls, slow, reentrant, per thread or global) on 1-3 interleaved threads, and for a third of the runs in a second process built without the instrumentation. Non-trivial: every run. Distinct: by hash of grammars, operations and policies." },
    Prop { id: "C15", run: c15::run, runs: (10000, 400000), rule: "A case is one history of calls - a whole drawn scenario of another check, with its faults: abandoned iterations, rejections, refusals, panics, failing sinks, torn saves, moved grammars, threads - repeated identically 12 times in one process (up to 160 times if something grows); blocks and bytes the library holds and basic blocks it executes are compared from round to round. Non-trivial: every run. Distinct: by hash of the first round's case." },
    Prop { id: "C16", run: c16::run, runs: (60000, 1200000), rule: "A case is a grammar in which some name derives itself, several inputs of it, and a drawn schedule of opening, reading, suspending, resuming and abandoning iterations over them; derivations that go round at most 0-4 times are enumerated by the model and awaited within a bounded number of steps, and an iteration with endlessly many must go on. Non-trivial: at least one iteration was opened. Distinct: by hash of grammar and inputs." },
];
