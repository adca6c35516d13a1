//! C15: nothing accumulates. One history (a whole scenario of another check, faults included) is
//! repeated in one process; what the library holds afterwards and the work it does must not grow.

use super::common::*;
use super::*;
use crate::env::{harness, sim};
use crate::r#gen::*;
use bnf::{Grammar, GrammarParser, Production};
use std::cell::Cell;
use crate::env::{LIVE_BLOCKS, LIVE_BYTES, WORK};
use crate::run::*;
use crate::{ev, violate};
use std::sync::atomic::Ordering::Relaxed;

const SCENES: &[(&str, fn())] = &[
    ("parse iterations", c01::run),
    ("operations in two environments", c02::run),
    ("seeded generation", c03::run),
    ("generation", c04::run_c04),
    ("caller panics", c05::run),
    ("depth-bounded", c06::run_c06),
    ("coverage-guided", c06::run_c07),
    ("weighted", c06::run_c08),
    ("formatting", c10::run),
    ("threads", c02::run_threads),
    ("saving and loading", c12::run),
    ("dead ends", c04::run_c13),
    ("unseeded generation", c09::run),
];
const ROUNDS: usize = 12;
const MANY: usize = 160;
/// basic blocks
const HEAVY: u64 = 120_000_000;
const LONG_WORK: u64 = 4_000_000_000;

enum Act {
    Op(Op),
    /// strategy, grammar, caller behaviour, entry at which caller code panics, choices allowed
    Gen(usize, usize, Calls, u32, usize),
    /// parser of grammar, expectation, trees taken
    Parse(usize, PExp, usize),
    /// direct choices: strategy, grammar, how many
    Ask(usize, usize, usize),
}
struct Fatal;
/// Grammars, parsers and strategies that live as long as the process; the same calls every round.
fn long_lived() -> Box<dyn FnMut()> {
    let (cases, walks) = draw_pool(range(1, 2), false);
    let hows: Vec<_> = cases.iter().map(|c| c.how()).collect();
    let held = build_all(&cases, &hows);
    let gs: Vec<&'static Grammar> = held.iter().map(|h| h.get()).collect();
    let parsers: Vec<Held<GrammarParser<'static>>> = gs
        .iter()
        .map(|g| {
            Held::new(|| match g.build_parser() {
                Ok(p) => p,
                Err(e) => harness(|| violate!("validation", "build_parser refused a valid grammar: {e}")),
            })
        })
        .collect();
    let kinds: Vec<_> = (0..range(1, 4)).map(|_| Strat::draw_kind()).collect();
    let mut strats: Vec<Strat> = kinds.iter().map(|k| sim(|| Strat::make(*k))).collect();
    let acts: Vec<Act> = (0..range(1, 6))
        .map(|_| {
            let g = choose(gs.len());
            let has = !cases[g].mg.prods.is_empty();
            match weighted(&[2, if walks[g] { 4 } else { 0 }, 3, if has { 1 } else { 0 }]) {
                0 => Act::Op(draw_op(&cases, &walks)),
                1 => Act::Gen(choose(strats.len()), g, Calls::draw(), if chance(1, 3) { range(1, 8) as u32 } else { 0 }, if chance(1, 4) { range(0, 6) } else { 300 }),
                2 => {
                    let exp = draw_parse(&cases[g].mg, cases[g].mg.start());
                    let take = if exp.trees.is_none() || chance(1, 2) { choose(3) } else { usize::MAX };
                    Act::Parse(g, exp, take)
                }
                _ => Act::Ask(choose(strats.len()), g, range(1, 60)),
            }
        })
        .collect();
    for a in &acts {
        let t = match a {
            Act::Op(o) => o.name(),
            Act::Gen(s, g, c, p, l) => format!("generate g{g} strategy {:?} {c:?} panic at {p} limit {l}", kinds[*s]),
            Act::Parse(g, e, t) => format!("parse g{g} {:?} take {t}", e.input),
            Act::Ask(s, g, n) => format!("{n} choices of g{g} by {:?}", kinds[*s]),
        };
        ev!("every round: {t}");
        case_sig(&t);
    }
    Box::new(move || {
        for a in &acts {
            match a {
                Act::Op(o) => drop(exec(o, &cases, &gs)),
                Act::Gen(s, g, c, p, l) => {
                    let v = Verdicts::new(*c, gs[*g]);
                    let n = Cell::new(0);
                    let enter = || {
                        n.set(n.get() + 1);
                        if n.get() == *p {
                            harness(|| {
                                count(F_PANIC_CB);
                                std::panic::panic_any(Fatal)
                            });
                        }
                    };
                    let st = &mut strats[*s];
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut f = |p: &Production, d: usize| {
                            v.enter();
                            enter();
                            st.pick(p, d)
                        };
                        let mut l = Limit { inner: &mut f, left: *l, calls: 0, picks: vec![] };
                        drop(sim(|| {
                            bnfcalls::by_strategy_callback(
                                gs[*g],
                                &|a, b| {
                                    enter();
                                    v.ask(a, b)
                                },
                                &mut l,
                            )
                        }));
                    }));
                    if let Err(p) = r
                        && !p.is::<Fatal>()
                    {
                        violate_panic(&*p);
                    }
                }
                Act::Parse(g, e, take) => {
                    let start = Held::new(|| bnf::Term::Nonterminal(e.start.clone()));
                    let inp = Held::new(|| e.input.clone());
                    let soft = Soft::when(e.trees.is_none());
                    let mut it: Iter = sim(|| open(gs[*g], Some(parsers[*g].get()), inp.get(), start.get(), 1));
                    for _ in 0..*take {
                        if sim(|| it.next().is_none()) {
                            break;
                        }
                    }
                    sim(|| drop(it));
                    drop(soft);
                    start.free();
                    inp.free();
                }
                Act::Ask(s, g, n) => {
                    for k in 0..*n {
                        let i = k % gs[*g].productions_iter().count();
                        let p = gs[*g].productions_iter().nth(i).unwrap();
                        if !p.is_empty() {
                            let st = &mut strats[*s];
                            sim(|| st.pick(p, k % 9));
                        }
                    }
                }
            }
        }
    })
}

pub fn run() {
    let k = choose(SCENES.len() + 6);
    let seed = u64_();
    let long = k >= SCENES.len();
    let mut scene: Box<dyn FnMut()> = if long { crate::env::set_env(draw_env()); long_lived() } else { Box::new(SCENES[k].1) };
    let name = if long { "long-lived grammars, parsers and strategies" } else { SCENES[k].0 };
    ev!("scene {name} seed {seed:x}");
    case_sig(&format!("{k} {seed:x}"));
    nontrivial();
    crate::env::REUSE.store(true, Relaxed);
    let mut held: Vec<(u64, u64)> = vec![];
    let mut work: Vec<u64> = vec![];
    let mut round = || {
        count(P_ROUNDS);
        let w = WORK.load(Relaxed);
        refill(crate::driver::STEP_LIMIT);
        substream(seed, &mut *scene);
        if !long {
            common::release_all();
        }
        held.push((LIVE_BLOCKS.load(Relaxed), LIVE_BYTES.load(Relaxed)));
        work.push(WORK.load(Relaxed) - w);
        (held.clone(), work.clone())
    };
    let mut last = (vec![], vec![]);
    for _ in 0..ROUNDS {
        last = round();
        if last.1[0] > HEAVY {
            // too much work to repeat
            skip();
        }
    }
    ev!("held {:?} work {:?}", last.0, last.1);
    if std::env::var_os("BNFSIM_C15").is_some() {
        eprintln!("{name} {seed:x} held {:?} work {:?}", last.0, last.1);
    }
    // growing in every one of the later rounds
    let grows = |v: &[u64]| v[3..].windows(2).all(|w| w[1] > w[0]);
    let blocks: Vec<u64> = last.0.iter().map(|x| x.0).collect();
    let bytes: Vec<u64> = last.0.iter().map(|x| x.1).collect();
    let suspect = grows(&blocks) || grows(&bytes);
    let slow = grows(&last.1);
    if suspect || slow {
        // fewer rounds of a long history
        let many = MANY.min((LONG_WORK / last.1.iter().max().unwrap().max(&1)) as usize).max(3 * ROUNDS);
        for _ in ROUNDS..many {
            last = round();
        }
        let (h, w) = last;
        let (a, b) = (h[ROUNDS], h[many - 1]);
        if suspect && h[ROUNDS..].windows(2).all(|w| w[1].0 > w[0].0 || w[1].1 > w[0].1) && b.1 > a.1 {
            violate!("memory-grows", "repeating the same calls ({name}) {} times made the memory the library holds grow every time, from {} blocks ({} bytes) to {} blocks ({} bytes)", many - ROUNDS, a.0, a.1, b.0, b.1);
        }
        if slow && w[ROUNDS..].windows(2).all(|w| w[1] > w[0]) && w[many - 1] > w[2] + w[2] / 4 {
            violate!("work-grows", "the same calls ({name}) take more work every time they are repeated: {} basic blocks in the third round, {} in round {many}", w[2], w[many - 1]);
        }
    }
}
