//! C09: unseeded generation, with the system's entropy in the simulator's hands.

use super::common::*;
use crate::env::{self, EnvCfg, sim};
use crate::r#gen::*;
use crate::model::*;
use crate::run::*;
use crate::{check, ev, violate};
use bnf::{DepthBounded, Grammar, RandomWalk};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering::Relaxed;

const BITS: usize = 72;

enum Got {
    Sentence(String),
    Error(String),
    Panic(String),
}
/// One unseeded generation by one of the entry points that seed themselves.
fn unseeded(g: &'static Grammar, api: usize) -> Got {
    count(P_GEN);
    let max = [50, 0, 1, 7, 63, 64, 100, 255, 256, 1000, 65_536, usize::MAX][sh_count(P_GEN) as usize % 12];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        sim(|| match api {
            0 => g.generate(),
            1 => g.generate_callback(|_, _| true),
            2 => {
                let mut s = RandomWalk::default();
                g.generate_seeded_with_strategy(&mut s)
            }
            _ => {
                let mut s = DepthBounded::new(max);
                g.generate_seeded_callback_with_strategy(|_, _| true, &mut s)
            }
        })
    }));
    match r {
        Ok(Ok(s)) => Got::Sentence(s),
        Ok(Err(e)) => Got::Error(e.to_string()),
        Err(p) => Got::Panic(panic_text(&*p)),
    }
}
const API: [&str; 4] = ["generate", "generate_callback", "RandomWalk::default", "DepthBounded::new"];

pub fn run() {
    let base = draw_env();
    env::set_env(base);
    nontrivial();
    let held = Held::new(|| coin_grammar(BITS).to_parts());
    let g = held.get();
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    let outage_first = chance(1, 3);
    if outage_first {
        // the very first use of this process happens while the entropy source is down
        let e = draw_env();
        let fails = range(1, 4) as u64;
        let api0 = choose(4);
        let calls = range(1, 6);
        let apis: Vec<usize> = (0..calls).map(|_| choose(4)).collect();
        ev!("outage: the first {fails} entropy reads fail; calls {apis:?}");
        case_sig(&format!("outage {fails} {apis:?} {api0}"));
        let (seen_, apis) = (&mut seen, &apis);
        fresh(e, move || {
            env::set_entropy_fault(0, fails);
            for a in apis {
                let before = env::ENTROPY_FAILS.load(Relaxed);
                let r = unseeded(g, *a);
                let good = env::ENTROPY_OKS.load(Relaxed);
                let failed = env::ENTROPY_FAILS.load(Relaxed) - before;
                ev!("{}: {} ({failed} failed reads during the call, {good} good reads so far)", API[*a], match &r { Got::Sentence(s) => s, Got::Error(s) => s, Got::Panic(s) => s });
                match r {
                    Got::Sentence(s) => {
                        check!(good > 0, "predictable", "{} returned {s} although no entropy could be read: it was made from predictable numbers", API[*a]);
                        if let Some(o) = seen_.insert(s.clone(), format!("{} during the outage", API[*a])) {
                            violate!("replayed", "{} repeated the sentence of {o}: {s}", API[*a]);
                        }
                    }
                    Got::Error(_) | Got::Panic(_) => {
                        check!(failed > 0, "no-recovery", "{} failed although entropy was available: {}", API[*a], match r { Got::Error(s) | Got::Panic(s) => s, _ => String::new() });
                    }
                }
            }
            // healed
            env::set_entropy_fault(u64::MAX, 0);
            count(P_HEALED);
            for k in 0..4 {
                match unseeded(g, k) {
                    Got::Sentence(s) => {
                        if let Some(o) = seen_.insert(s.clone(), format!("{} after the outage", API[k])) {
                            violate!("replayed", "{} repeated the sentence of {o}: {s}", API[k]);
                        }
                    }
                    Got::Error(e) | Got::Panic(e) => violate!("no-recovery", "{} still fails after the entropy source recovered: {e}", API[k]),
                }
            }
        });
    }
    // many calls, instances and threads; clocks, addresses and hash seeds may coincide, entropy never does
    let same_world = chance(1, 2);
    for t in 0..range(2, 5) {
        let e = if same_world { EnvCfg { entropy_seed: env::mix(u64_(), t as u64), ..base } } else { EnvCfg { entropy_seed: env::mix(u64_(), t as u64), ..draw_env() } };
        let n = range(2, 40);
        let late = chance(1, 4).then(|| range(1, 6));
        let apis: Vec<usize> = (0..n).map(|_| choose(4)).collect();
        sig(n as u64);
        ev!("thread {t}: {n} calls{}", if late.is_some() { ", entropy failing later on" } else { "" });
        let (seen_, apis) = (&mut seen, &apis);
        fresh(e, move || {
            if let Some(k) = late {
                env::set_entropy_fault(k as u64, 2);
            }
            for (k, a) in apis.iter().enumerate() {
                let before = env::ENTROPY_FAILS.load(Relaxed);
                match unseeded(g, *a) {
                    Got::Sentence(s) => {
                        check!(s.len() == BITS && s.bytes().all(|b| b == b'0' || b == b'1'), "not-derivable", "{} returned {s:?}", API[*a]);
                        if let Some(o) = seen_.insert(s.clone(), format!("thread {t} call {k} ({})", API[*a])) {
                            violate!("replayed", "thread {t} call {k} ({}) repeated the {BITS} coin flips of {o}: {s}", API[*a]);
                        }
                    }
                    Got::Error(e) | Got::Panic(e) => {
                        check!(env::ENTROPY_FAILS.load(Relaxed) > before, "no-recovery", "{} failed although entropy was available: {e}", API[*a]);
                    }
                }
            }
        });
    }
    case_sig(&format!("{}", seen.len()));
    // no bit is stuck: every coin shows both sides somewhere
    if seen.len() >= 60 {
        count(P_STAT);
        for b in 0..BITS {
            let ones = seen.keys().filter(|s| s.as_bytes()[b] == b'1').count();
            check!(ones > 0 && ones < seen.len(), "stuck", "coin {b} always fell the same way in {} unseeded sentences", seen.len());
        }
    }
    // inside the language
    let c = walk_case();
    note_grammar(&c);
    let how = c.how();
    let h = Held::new(|| c.build(how));
    let first = {
        let m = super::c04::sim_free_model(&c, h.get());
        let mut s = BTreeSet::new();
        MG { prods: m.prods.into_iter().filter(|p| s.insert(p.0.clone())).collect() }
    };
    ev!("grammar:\n{}", render_grammar(&first));
    let e = draw_env();
    let mut texts = vec![];
    {
        let texts = &mut texts;
        let gr = h.get();
        fresh(e, move || {
            for k in 0..6 {
                match unseeded(gr, k % 4) {
                    Got::Sentence(s) => texts.push((k % 4, s)),
                    Got::Error(e) | Got::Panic(e) => violate!("failed", "{} failed: {e}\n{}", API[k % 4], render_grammar(&MG::of(gr))),
                }
            }
            // callbacks decide in unseeded generation too
            let names = std::cell::RefCell::new(vec![]);
            let left = std::cell::Cell::new(5);
            let r = must("generate_callback", || {
                gr.generate_callback(|n, t| {
                    crate::env::harness(|| {
                        let ok = left.get() == 0 || n.len() % 2 == 0;
                        if !ok {
                            left.set(left.get() - 1);
                            count(F_REJECT);
                        }
                        names.borrow_mut().push((n.to_string(), t.to_string(), ok));
                        ok
                    })
                })
            });
            match r {
                Ok(s) => {
                    let last = names.borrow().last().cloned();
                    check!(last.as_ref().is_some_and(|l| l.2 && l.1 == s), "not-accepted", "generate_callback returned {s:?}, the last expansion offered was {last:?}");
                    texts.push((1, s));
                }
                Err(e) => violate!("failed", "generate_callback failed: {e}"),
            }
        });
    }
    for (a, s) in texts {
        ev!("{}: {s:?}", API[a]);
        if s.len() <= 60 {
            check!(Deriv::new(&first, &s).member(first.start()), "not-derivable", "{} returned {s:?}, which the grammar does not derive\n{}", API[a], render_grammar(&first));
        }
    }
    // every alternative can occur
    if chance(1, 4) {
        count(P_STAT);
        let n = range(2, 6);
        let mg = MG { prods: vec![("s".into(), (0..n).map(|i| vec![MT::T(format!("x{i}"))]).collect())] };
        let h = Held::new(|| mg.to_parts());
        let a = choose(4);
        let mut hit = BTreeSet::new();
        let gr = h.get();
        let e = draw_env();
        let hits = &mut hit;
        fresh(e, move || {
            for _ in 0..360 {
                if let Got::Sentence(s) = unseeded(gr, a) {
                    hits.insert(s);
                }
            }
        });
        check!(hit.len() == n, "ruled-out", "{} produced only {hit:?} of {n} alternatives in 360 calls", API[a]);
        h.free();
    }
    h.free();
    held.free();
}
