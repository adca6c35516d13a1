//! C03: seeded generation is a function of grammar, seed and call history.

use super::common::*;
use crate::env::sim;
use crate::r#gen::*;
use crate::run::*;
use crate::sched;
use crate::{check, ev};
use bnf::rand::rngs::StdRng;
use bnf::rand::{Rng, SeedableRng};
use bnf::{Grammar, Production};
use std::rc::Rc;
use std::cell::RefCell;

/// One source of seeded choices with its planned calls.
#[derive(Clone)]
struct Source {
    /// None: StdRng + generate_seeded; Some: a built-in strategy
    kind: Option<(usize, u64, u32, u32)>,
    seed: u64,
    /// (grammar, what the caller does, direct choices instead of a generation)
    calls: Vec<(usize, Calls, usize)>,
}
enum Live {
    Rng(StdRng),
    Strat(Strat),
}

fn do_call(live: &mut Live, g: &Grammar, c: Calls, burst: usize) -> String {
    if burst > 0 {
        // many draws from one source
        let mut h = 0u64;
        match live {
            Live::Rng(r) => {
                for _ in 0..burst / 16 {
                    let x = outcome(sim(|| g.generate_seeded(r)));
                    for b in x.bytes() {
                        h = crate::env::mix(h, b as u64);
                    }
                }
            }
            Live::Strat(s) => {
                let n = g.productions_iter().count();
                for k in 0..burst {
                    let i = sim(|| {
                        let p = g.productions_iter().nth(k % n).unwrap();
                        if p.is_empty() { None } else { s.pick(p, k % 5) }
                    });
                    h = crate::env::mix(h, i.map_or(u64::MAX, |i| i as u64));
                }
            }
        }
        return format!("{burst} draws: {h:x}");
    }
    count(P_GEN);
    let v = Verdicts::new(c, g);
    let r = match live {
        Live::Rng(r) => outcome(sim(|| if c.callback() { bnfcalls::seeded_callback(g, r, &|a, b| v.ask(a, b)) } else { g.generate_seeded(r) })),
        Live::Strat(s) => {
            let mut f = |p: &Production, d: usize| {
                v.enter();
                s.pick(p, d)
            };
            let mut l = Limit { inner: &mut f, left: 200, calls: 0, picks: vec![] };
            let r = sim(|| if c.callback() { bnfcalls::by_strategy_callback(g, &|a, b| v.ask(a, b), &mut l) } else { bnfcalls::by_strategy(g, &mut l) });
            format!("{} {:?}", outcome(r), l.picks)
        }
    };
    r + &v.log()
}
fn start(s: &Source) -> Live {
    sim(|| match s.kind {
        None => Live::Rng(StdRng::from_seed(edge_seed(s.seed))),
        Some(k) => Live::Strat(Strat::make(k)),
    })
}

pub fn run() {
    crate::env::set_env(draw_env());
    let ng = range(1, 2);
    let cases: Vec<GCase> = (0..ng).map(|_| if chance(1, 8) { GCase::plain(coin_grammar(range(8, 40)), false) } else { walk_case() }).collect();
    for c in &cases {
        note_grammar(c);
        ev!("grammar:\n{}", c.show());
    }
    let hows: Vec<How> = cases.iter().map(|c| c.how()).collect();
    let ns = range(1, 4);
    let mut sources: Vec<Source> = (0..ns)
        .map(|_| Source {
            kind: if chance(1, 3) { None } else { Some(Strat::draw_kind()) },
            seed: u64_(),
            calls: (0..if chance(1, 12) { range(10, 40) } else { range(1, 6) }).map(|_| (choose(ng), Calls::draw(), if chance(1, 40) { [50, 300, 1100, 2500, 5000][choose(5)] } else { 0 })).collect(),
        })
        .collect();
    if ns > 1 && chance(1, 3) {
        // two sources with equal seeds and calls must agree with each other
        sources[1] = sources[0].clone();
    }
    for (i, s) in sources.iter().enumerate() {
        ev!("source {i}: {:?} seed {} calls {:?}", s.kind, s.seed, s.calls);
        case_sig(&format!("{:?}{}{:?}", s.kind, s.seed, s.calls));
    }
    nontrivial();
    // reference: each source alone, in order, on a fresh thread
    let ea = draw_env();
    let alone: Vec<(Vec<String>, u64)> = {
        let (sources, cases, hows) = (&sources, &cases, &hows);
        fresh(ea, move || {
            sources
                .iter()
                .map(|s| {
                    let held = build_all(cases, hows);
                    let mut l = start(s);
                    let v: Vec<String> = s.calls.iter().map(|(g, e, b)| do_call(&mut l, held[*g].get(), *e, *b)).collect();
                    let tail = match &mut l {
                        Live::Rng(r) => r.random::<u64>(),
                        _ => 0,
                    };
                    for h in held {
                        h.free();
                    }
                    (v, tail)
                })
                .collect()
        })
    };
    if ns > 1 && sources[0].seed == sources[1].seed && sources[0].kind == sources[1].kind {
        check!(alone[0] == alone[1], "seed-disagrees", "two runs of the same seeded calls differ: {:?} / {:?}", alone[0], alone[1]);
    }
    // the same calls, interleaved, elsewhere in memory, with other entropy and hash seeds
    let eb = draw_env();
    let hazard = (chance(1, 3), chance(1, 2), chance(1, 3));
    // groups become generated names, so an equal grammar needs the same way of building it
    let redraw = chance(1, 3);
    let hows: Vec<How> = hows
        .iter()
        .zip(&cases)
        .map(|(h, c)| if redraw && !c.mg.prods.iter().any(|p| p.0.starts_with('#')) { c.how() } else { *h })
        .collect();
    let threads = chance(1, 4) && ns > 1;
    let got: Vec<Rc<RefCell<(Vec<String>, u64)>>> = (0..ns).map(|_| Default::default()).collect();
    if threads {
        let held = build_all(&cases, &hows);
        let mut bodies: Vec<Box<dyn FnOnce()>> = vec![];
        for i in 0..ns {
            let s: &'static Source = unsafe { std::mem::transmute(&sources[i]) };
            let gs: Vec<&'static Grammar> = held.iter().map(|h| h.get()).collect();
            let out = got[i].clone();
            let te = crate::env::EnvCfg { hash_seed: u64_(), ..eb };
            bodies.push(Box::new(move || {
                crate::env::set_env(te);
                let mut l = start(s);
                for (g, e, b) in &s.calls {
                    let r = do_call(&mut l, gs[*g], *e, *b);
                    out.borrow_mut().0.push(r);
                    sched::yield_point();
                }
                if let Live::Rng(r) = &mut l {
                    out.borrow_mut().1 = r.random::<u64>();
                }
            }));
        }
        let gap = range(1, 5);
        sched::run_threads(bodies, gap, 1);
    } else {
        let (sources, cases, hows, got) = (&sources, &cases, &hows, &got);
        fresh(eb, move || {
            if hazard.0 {
                crate::env::set_entropy_fault(0, u64::MAX >> 1);
            }
            let mut held = build_all(cases, hows);
            let mut live: Vec<Live> = sources.iter().map(start).collect();
            let mut pos = vec![0; ns];
            loop {
                let open: Vec<usize> = (0..ns).filter(|i| pos[*i] < sources[*i].calls.len()).collect();
                if open.is_empty() {
                    break;
                }
                let i = *pick(&open);
                sig(i as u64);
                let (g, e, b) = sources[i].calls[pos[i]];
                pos[i] += 1;
                let r = do_call(&mut live[i], held[g].get(), e, b);
                got[i].borrow_mut().0.push(r);
                if hazard.1 && chance(1, 2) {
                    // grammars move or are replaced by equal ones while strategies stay
                    count(F_MOVE);
                    let g = choose(held.len());
                    let new = if chance(1, 2) { Held::new(|| held[g].get().clone()) } else { Held::new(|| cases[g].build(hows[g])) };
                    let old = std::mem::replace(&mut held[g], new);
                    old.free();
                }
                if hazard.2 && chance(1, 3) && !hazard.0 {
                    // unseeded generation in between
                    let r = sim(|| held[0].get().generate());
                    std::hint::black_box(r.is_ok());
                }
            }
            for i in 0..ns {
                if let Live::Rng(r) = &mut live[i] {
                    got[i].borrow_mut().1 = r.random::<u64>();
                }
            }
            for h in held {
                h.free();
            }
        });
    }
    for i in 0..ns {
        let b = got[i].borrow();
        for k in 0..sources[i].calls.len() {
            ev!("source {i} call {k}: {}", alone[i].0[k]);
            check!(
                alone[i].0[k] == b.0[k],
                "not-reproducible",
                "source {i} ({:?}, seed {}), call {k}: alone it gives\n{}\ninterleaved/elsewhere it gives\n{}\ngrammar:\n{}",
                sources[i].kind,
                sources[i].seed,
                alone[i].0[k],
                b.0[k],
                cases[sources[i].calls[k].0].show()
            );
        }
        check!(alone[i].1 == b.1, "rng-advance", "source {i}: the caller's RNG ends in a different state ({} vs {})", alone[i].1, b.1);
    }
    // each seeded call advances the RNG it was given: consecutive sentences are independent
    if chance(1, 10) {
        let g = Held::new(|| coin_grammar(60).to_parts());
        let mut l = start(&Source { kind: None, seed: u64_(), calls: vec![] });
        let Live::Rng(r) = &mut l else { unreachable!() };
        let mut all = std::collections::BTreeSet::new();
        for k in 0..4 {
            let cb = chance(1, 2);
            let x = outcome(sim(|| if cb { bnfcalls::seeded_callback(g.get(), r, &|_, _| true) } else { g.get().generate_seeded(r) }));
            check!(all.insert(x), "rng-advance", "{} consecutive seeded generations (callback: {cb}) gave the same 60 coin flips twice: the RNG was not used or not advanced", k + 1);
        }
        let mut s = start(&Source { kind: Some((0, u64_(), 0, 0)), seed: 0, calls: vec![] });
        let a = do_call(&mut s, g.get(), Calls::default(), 0);
        let b = do_call(&mut s, g.get(), Calls::default(), 0);
        check!(a != b, "rng-advance", "two consecutive generations from one strategy gave the same 60 coin flips");
    }
}
