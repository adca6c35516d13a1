//! C06, C07, C08: what the built-in strategies promise, for every random stream and history.
//! Each real strategy is wrapped by a recorder that judges every choice it makes while real
//! generations run under rejections, panics, moves and retuning.

use super::c04::{Injected, Machine, Want, sim_free_model};
use super::common::*;
use crate::env::{harness, sim};
use crate::r#gen::*;
use crate::model::*;
use crate::run::*;
use crate::sched;
use crate::{check, ev, violate};
use bnf::{CoverageGuided, DepthBounded, Error, Expression, GenerationStrategy, Grammar, Production, Term, Weighted};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};

fn shape(p: &Production) -> (String, Vec<Vec<MT>>) {
    MG::of(&Grammar::from_parts(vec![p.clone()])).prods.remove(0)
}
fn pick_index(what: &str, p: &Production, e: Option<&Expression>) -> usize {
    match e {
        None => violate!("refused", "{what} refused to choose for {p}"),
        Some(e) => match index_in(p, e) {
            Some(i) => i,
            None => violate!("foreign-choice", "{what} returned an alternative that is not one of the rule's: {e} for {p}"),
        },
    }
}

/// Runs one generation with a judging wrapper around a real strategy.
struct Judged<'a, S: GenerationStrategy> {
    inner: &'a mut S,
    left: usize,
    machine: Option<&'a RefCell<Machine>>,
    panic_at: Option<usize>,
    n: usize,
    judge: &'a mut dyn FnMut(&Production, usize, usize),
}
impl<S: GenerationStrategy> GenerationStrategy for Judged<'_, S> {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        harness(|| {
            sched::yield_point();
            self.n += 1;
            count(P_CHOOSE);
            if let Some(m) = self.machine {
                m.borrow_mut().on_choose(p, depth);
            }
            if self.panic_at == Some(self.n) {
                count(F_PANIC_STRAT);
                std::panic::panic_any(Injected);
            }
        });
        if self.left == 0 {
            if let Some(m) = self.machine {
                m.borrow_mut().refuse();
            }
            return None;
        }
        self.left -= 1;
        let e = self.inner.choose(p, depth);
        harness(|| {
            let i = pick_index("the strategy", p, e);
            (self.judge)(p, depth, i);
            if let Some(m) = self.machine {
                m.borrow_mut().chose(i);
            }
        });
        e
    }
}
struct Faults {
    reject: usize,
    rejects_left: usize,
    cb_panic_at: Option<usize>,
    strat_panic_at: Option<usize>,
}
fn draw_faults(panics: bool) -> Faults {
    Faults {
        reject: choose(4),
        rejects_left: choose(40),
        cb_panic_at: (panics && chance(1, 6)).then(|| range(1, 12)),
        strat_panic_at: (panics && chance(1, 8)).then(|| range(1, 12)),
    }
}
/// None: interrupted by an injected panic.
fn drive<S: GenerationStrategy>(g: &'static Grammar, model: &MG, s: &mut S, mut f: Faults, limit: usize, judge: &mut dyn FnMut(&Production, usize, usize)) -> (Option<Result<String, Error>>, usize) {
    count(P_GEN);
    let m = RefCell::new(Machine::new(model));
    let cbn = Cell::new(0usize);
    let mut j = Judged { inner: s, left: limit, machine: Some(&m), panic_at: f.strat_panic_at.take(), n: 0, judge };
    let left = Cell::new(f.rejects_left);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        sim(|| {
            g.generate_seeded_callback_with_strategy(
                |name, text| {
                    harness(|| {
                        sched::yield_point();
                        count(P_CB);
                        cbn.set(cbn.get() + 1);
                        let mut m = m.borrow_mut();
                        m.on_verdict(name, text);
                        if f.cb_panic_at == Some(cbn.get()) {
                            count(F_PANIC_CB);
                            std::panic::panic_any(Injected);
                        }
                        let ok = left.get() == 0 || !chance(f.reject, 8);
                        if !ok {
                            left.set(left.get() - 1);
                            count(F_REJECT);
                        }
                        sig(ok as u64);
                        m.verdict(ok);
                        ok
                    })
                },
                &mut j,
            )
        })
    }));
    let n = j.n;
    match r {
        Ok(r) => {
            m.borrow_mut().finish(&r);
            (Some(r), n)
        }
        Err(p) if p.is::<Injected>() => (None, n),
        Err(p) => violate!("panic", "generation panicked: {}", panic_text(&*p)),
    }
}
fn all_terminal(a: &[MT]) -> bool {
    a.iter().all(|t| matches!(t, MT::T(_)))
}

// ------------------------------------------------------------------ C06
/// Give every rule an all-terminal alternative.
fn ground(mg: &mut MG) {
    for (i, (_, alts)) in mg.prods.iter_mut().enumerate() {
        if !alts.iter().any(|a| all_terminal(a)) {
            let at = choose(alts.len() + 1);
            alts.insert(at, if chance(1, 6) { vec![] } else { vec![MT::T(format!("t{i}"))] });
        }
    }
}
fn depth_draw() -> usize {
    [0, 1, 2, 3, 5, 9, 17, 64, 255, 256, 65_536, usize::MAX, usize::MAX - 1][weighted(&[6, 8, 8, 8, 6, 2, 2, 1, 1, 1, 1, 2, 2])]
}
/// Depths around which a narrower number or a cap would show.
const EDGES: [usize; 19] = [0, 1, 7, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1000, 65_535, 65_536, 65_537, 1 << 31, 1 << 32, (1 << 32) + 1];
pub fn run_c06() {
    let e = draw_env();
    crate::env::set_env(e);
    let grounded = chance(2, 3);
    let mut c = gen_case(false);
    if grounded {
        let mut mg = c.mg.clone();
        if mg.prods.iter().any(|p| p.0.starts_with('#')) {
            mg = GCase::plain(template(), false).mg;
        }
        ground(&mut mg);
        c = GCase::plain(mg, chance(1, 3));
    }
    if has_unchoosable(&c.mg) {
        skip();
    }
    note_grammar(&c);
    let how = c.how();
    let h = Held::new(|| c.build(how));
    let model = sim_free_model(&c, h.get());
    let own = chance(1, 3);
    let seed = u64_();
    let max0 = depth_draw();
    ev!("grammar by {how:?} (grounded {grounded}):\n{}", render_grammar(&model));
    let thread_env = draw_env();
    let body = || {
        let mut s = sim(|| if own { DepthBounded::new(max0) } else { DepthBounded::from_seed(max0, edge_seed(seed)) });
        ev!("depth bounded, max {max0}, {}", if own { "own entropy" } else { "seeded" });
        nontrivial();
        for k in 0..range(1, 4) {
            if k > 0 && chance(1, 2) {
                s.max_depth = depth_draw();
                count(F_RETUNE);
                ev!("max depth set to {}", s.max_depth);
            }
            let max = s.max_depth;
            let deepest = Cell::new(0);
            let f = draw_faults(true);
            let limit = if grounded && max <= 3 { 20_000 } else { 300 };
            let (r, n) = drive(h.get(), &model, &mut s, f, limit, &mut |p, d, i| {
                deepest.set(deepest.get().max(d));
                let (_, alts) = shape(p);
                ev!("choose {} depth {d} -> {i}", p.lhs);
                sig(i as u64);
                if d >= max {
                    count(P_ATLIMIT);
                    let can = alts.iter().any(|a| all_terminal(a));
                    check!(!can || all_terminal(&alts[i]), "past-limit", "at depth {d} (max {max}) the strategy picked {:?} of {p} although an all-terminal alternative exists", render_expr(&alts[i]));
                }
            });
            ev!("result {r:?} after {n} choices, deepest {}", deepest.get());
            if grounded {
                check!(deepest.get() <= max, "past-limit", "a grammar with an all-terminal alternative in every rule was expanded to depth {} with max {max}\n{}", deepest.get(), render_grammar(&model));
                if let Some(r) = r
                    && n < limit
                {
                    check!(r.is_ok(), "no-end", "depth-bounded generation failed: {r:?}\n{}", render_grammar(&model));
                }
            }
        }
        // below the maximum nothing is ruled out
        if chance(1, 3) {
            count(P_STAT);
            let n = if chance(1, 4) { range(8, 140) } else { range(2, 7) };
            // in wide rules all-terminal alternatives are rare
            let rare = if n > 7 { range(1, n) } else { 1 };
            let p = sim(|| {
                let (mut v, names) = (vec![], ["s", "t"]);
                for i in 0..n {
                    let kind = choose(7);
                    let kind = if (kind == 0 || kind == 3 || kind == 4) && choose(rare) != 0 { [1, 0, 0, 2, 5][kind] } else { kind };
                    let long = |k: usize| -> Vec<Term> { (0..k).map(|j| Term::Terminal(["x", "", "<s>", "s"][j % 4].to_string())).collect() };
                    let terms = match kind {
                        4 => long([5, 9, 17, 33, 70][choose(5)]),
                        5 => {
                            // the only name comes late
                            let mut v = long([5, 9, 17, 33, 70][choose(5)]);
                            let at = v.len() - choose(3);
                            v.insert(at, Term::Nonterminal(names[choose(2)].into()));
                            v
                        }
                        6 => vec![Term::Nonterminal(names[choose(2)].into()), Term::Terminal(format!("x{i}"))],
                        0 => vec![Term::Terminal(format!("x{i}"))],
                        1 => vec![Term::Terminal(format!("x{i}")), Term::Nonterminal(names[choose(2)].into())],
                        2 => vec![Term::Nonterminal(names[choose(2)].into())],
                        _ => vec![],
                    };
                    v.push(Expression::from_parts(terms));
                }
                Production::from_parts(Term::Nonterminal("s".into()), v)
            });
            let max = if chance(1, 2) { [1, 2, 6, usize::MAX][choose(4)] } else { EDGES[1 + choose(EDGES.len() - 1)] };
            s.max_depth = max;
            let below: Vec<usize> = EDGES.iter().copied().filter(|d| *d < max).collect();
            let beyond: Vec<usize> = EDGES.iter().copied().filter(|d| *d >= max).chain([max, max.saturating_add(1), usize::MAX]).collect();
            let alts = shape(&p).1;
            let mut hit = BTreeSet::new();
            let asks = 500.max(50 * n);
            for k in 0..asks {
                let d = [0, max - 1, max / 2, below[k / 4 % below.len()]][k % 4];
                let i = pick_index("depth-bounded", &p, must("choose", || s.choose(&p, d)));
                hit.insert(i);
            }
            check!(hit.len() == n, "ruled-out", "below the maximum depth {max} only alternatives {hit:?} of {n} occur in {asks} choices: {p}");
            for k in 0..66usize {
                let d = beyond[k % beyond.len()];
                let i = pick_index("depth-bounded", &p, must("choose", || s.choose(&p, d)));
                check!(all_terminal(&alts[i]) || !alts.iter().any(|a| all_terminal(a)), "past-limit", "at depth {d} (max {max}) the strategy picked alternative {i} of {p}");
            }
            sim(|| drop(p));
        }
        sim(|| drop(s));
    };
    if own { fresh(thread_env, body) } else { body() }
    h.free();
}

// ------------------------------------------------------------------ C07
#[derive(Default)]
struct Cover(BTreeMap<String, BTreeSet<usize>>);
impl Cover {
    fn judge(&mut self, p: &Production, i: usize) {
        let name = match &p.lhs {
            Term::Nonterminal(n) => n.clone(),
            Term::Terminal(n) => format!("\u{0}{n}"),
        };
        let seen = self.0.entry(name).or_default();
        let unseen: Vec<usize> = (0..p.len()).filter(|k| !seen.contains(k)).collect();
        check!(unseen.is_empty() || unseen.contains(&i), "repeat", "alternative {i} of {p} was picked again although {unseen:?} were never picked");
        seen.insert(i);
        ev!("choose {} -> {i} (unseen {unseen:?})", p.lhs);
        sig(i as u64);
    }
}
struct Covered {
    s: CoverageGuided,
    model: Cover,
}
fn reach_prob(mg: &MG) -> BTreeMap<String, f64> {
    // lower bound on the chance that one generation with uniform choices expands a name
    let mut p: BTreeMap<String, f64> = BTreeMap::new();
    p.insert(mg.start().to_string(), 1.0);
    for _ in 0..mg.prods.len() + 1 {
        for n in mg.names() {
            let Some(pn) = p.get(n).copied() else { continue };
            let (_, alts) = mg.first(n).unwrap();
            for a in alts {
                for t in a {
                    if let MT::N(m) = t {
                        let q = pn / alts.len() as f64;
                        let e = p.entry(m.clone()).or_insert(0.0);
                        if q > *e {
                            *e = q;
                        }
                    }
                }
            }
        }
    }
    p
}
/// Far more rules than a grammar usually has, asked about round after round.
fn many_names(e: crate::env::EnvCfg) {
    crate::env::set_env(crate::env::EnvCfg { hash_mode: 0, ..e });
    let n = [200, 600, 1500, 5000, 40_000][weighted(&[2, 3, 3, 2, 1])] + choose(50);
    let alts = range(2, 4);
    let back = chance(1, 2);
    let s = edge_seed(u64_());
    let mut st = sim(|| CoverageGuided::from_seed(s));
    count(P_WIDE);
    case_sig(&format!("{n} {alts} {back}"));
    nontrivial();
    let mut seen = vec![0u32; n];
    for round in 0..alts {
        for k in 0..n {
            let k = if back && round % 2 == 1 { n - 1 - k } else { k };
            let p = sim(|| Production::from_parts(Term::Nonterminal(format!("rule-{k}")), (0..alts).map(|_| Expression::from_parts(vec![Term::Terminal(String::from("x"))])).collect()));
            let x = must("choose", || st.choose(&p, 0));
            let i = pick_index("coverage-guided", &p, x);
            check!(seen[k] & 1 << i == 0, "repeat", "alternative {i} of rule {k} of {n} was picked again in round {round} of {alts}: not all were picked yet");
            seen[k] |= 1 << i;
            sim(|| drop(p));
        }
    }
    sim(|| drop(st));
}
pub fn run_c07() {
    let e0 = draw_env();
    crate::env::set_env(e0);
    if chance(1, 500) && !repeated() {
        return many_names(e0);
    }
    let ng = range(1, 3);
    let mut cases: Vec<GCase> = vec![];
    for _ in 0..ng {
        let c = if chance(1, 2) { gen_case(false) } else { walk_case() };
        note_grammar(&c);
        cases.push(c);
    }
    let hows: Vec<How> = cases.iter().map(|c| c.how()).collect();
    let mut held = build_all(&cases, &hows);
    let mut models: Vec<MG> = cases.iter().zip(&held).map(|(c, h)| sim_free_model(c, h.get())).collect();
    for m in &models {
        ev!("grammar:\n{}", render_grammar(m));
    }
    let mk = || Covered {
        s: match choose(3) {
            0 => sim(CoverageGuided::new),
            1 => sim(CoverageGuided::default),
            _ => {
                let s = edge_seed(u64_());
                sim(|| CoverageGuided::from_seed(s))
            }
        },
        model: Cover::default(),
    };
    let mut strats: Vec<Held<Covered>> = (0..range(1, 2)).map(|_| Held::new(|| harness(mk))).collect();
    nontrivial();
    for step in 0..if chance(1, 20) { range(40, 120) } else { range(3, 16) } {
        let g = choose(ng);
        let k = choose(strats.len());
        let what = weighted(&[8, 3, 2, 2, 2, 1]);
        ev!("step {step}: {what} grammar {g} strategy {k}");
        match what {
            0 => {
                let c = strats[k].get_mut();
                let f = draw_faults(true);
                let Covered { s, model } = c;
                let (r, _) = drive(held[g].get(), &models[g], s, f, 250, &mut |p, _, i| model.judge(p, i));
                ev!("result {r:?}");
            }
            1 => {
                // the grammar moves: clone, rebuild or reload, old one freed (before or after)
                count(F_MOVE);
                let how = hows[g];
                let first = chance(1, 2);
                if first {
                    let mg = models[g].clone();
                    let old = std::mem::replace(&mut held[g], Held::new(Grammar::new));
                    old.free();
                    let new = Held::new(|| mg.to_parts());
                    std::mem::replace(&mut held[g], new).free();
                } else {
                    let gr = held[g].get();
                    let new = match choose(3) {
                        0 => Held::new(|| gr.clone()),
                        1 => Held::new(|| {
                            let j = serde_json::to_string(gr).unwrap();
                            serde_json::from_str(&j).unwrap()
                        }),
                        _ if models[g] == sim_free_model(&cases[g], gr) && !models[g].prods.iter().any(|p| p.0.starts_with("__anon")) && models[g] == cases[g].mg => Held::new(|| cases[g].build(how)),
                        _ => Held::new(|| gr.clone()),
                    };
                    std::mem::replace(&mut held[g], new).free();
                }
            }
            2 => {
                // the strategy moves
                count(F_MOVE);
                let old = strats.remove(k);
                let c = old.take();
                strats.insert(k, Held::new(|| c));
            }
            3 => {
                // an alternative is added at the end of a rule
                count(F_RETUNE);
                let pi = choose(models[g].prods.len());
                let name = models[g].prods[pi].0.clone();
                let pi = models[g].prods.iter().position(|p| p.0 == name).unwrap();
                let alt = vec![MT::T(format!("new{step}"))];
                let gr = held[g].get_mut();
                sim(|| gr.productions_iter_mut().nth(pi).unwrap().add_to_rhs(Expression::from_parts(alt.iter().map(to_term).collect())));
                models[g].prods[pi].1.push(alt);
            }
            4 => {
                // asked directly about rules, some on the stack
                let pi = choose(models[g].prods.len());
                let len = models[g].prods[pi].1.len();
                let n = if chance(1, 3) { len + range(1, 8) } else { range(1, 8) };
                let local = sim(|| held[g].get().productions_iter().nth(pi).unwrap().clone());
                let from_grammar = chance(1, 2);
                for _ in 0..n {
                    let c = strats[k].get_mut();
                    let p = if from_grammar { held[g].get().productions_iter().nth(pi).unwrap() } else { &local };
                    let e = must("choose", || c.s.choose(p, 0));
                    let i = pick_index("coverage-guided", p, e);
                    c.model.judge(p, i);
                }
                sim(|| drop(local));
            }
            _ => {
                // unrelated use between
                let s = sim(|| held[g].get().to_string());
                std::hint::black_box(s);
            }
        }
    }
    // repeated generation exercises every alternative of the rules it reaches
    if chance(1, 3) {
        let g = choose(ng);
        let m = models[g].clone();
        let first = MG { prods: { let mut seen = BTreeSet::new(); m.prods.iter().filter(|p| seen.insert(p.0.clone())).cloned().collect() } };
        let h = first.productive_first();
        let reach = reach_prob(&first);
        let pmin = reach.values().cloned().fold(1.0, f64::min);
        let alts: usize = first.prods.iter().map(|p| p.1.len()).max().unwrap();
        if pmin > 0.04 && alts <= 6 && first.names().iter().all(|n| h.contains_key(*n)) && mean_size(&first).is_some_and(|x| x < 12.0) {
            count(P_STAT);
            let c = strats[0].get_mut();
            let total: usize = first.prods.iter().map(|p| p.1.len()).sum();
            let cap = (alts as f64 * 60.0 / pmin) as usize + 4 * total;
            let missing = |c: &Covered| -> Option<(String, usize)> {
                for n in reach.keys() {
                    let k = first.first(n).unwrap().1.len();
                    for i in 0..k {
                        if !c.model.0.get(n).is_some_and(|s| s.contains(&i)) {
                            return Some((n.clone(), i));
                        }
                    }
                }
                None
            };
            let mut tries = 0;
            while let Some(mi) = missing(c) {
                check!(tries < cap, "never-covered", "alternative {} of <{}> still not exercised after {cap} generations\n{}", mi.1, mi.0, render_grammar(&first));
                tries += 1;
                let Covered { s, model } = &mut *c;
                let f = Faults { reject: 0, rejects_left: 0, cb_panic_at: None, strat_panic_at: None };
                drive(held[g].get(), &m, s, f, 3000, &mut |p, _, i| model.judge(p, i));
            }
            count(P_FULLCOVER);
            ev!("full coverage after {tries} generations (cap {cap})");
        }
    }
    for h in held {
        h.free();
    }
    for s in strats {
        s.free();
    }
}

// ------------------------------------------------------------------ C08
fn weight() -> u32 {
    match choose(8) {
        0 => 1,
        1 => 0,
        2 => range(2, 9) as u32,
        3 => 100,
        4 => u32::MAX,
        5 => u32::MAX - choose(3) as u32,
        6 => 1 << 31,
        _ => choose(1 << 20) as u32,
    }
}
fn weights_of(p: &Production, rw: u32, nw: u32) -> Vec<u64> {
    let (l, alts) = shape(p);
    alts.iter().map(|a| if a.iter().any(|t| matches!(t, MT::N(n) if *n == l)) { rw as u64 } else { nw as u64 }).collect()
}
fn random_rule() -> Production {
    let n = if chance(1, 8) { range(9, 60) } else { range(1, 8) };
    let lhs = ["s", "expr", "日"][choose(3)];
    let alts: Vec<Vec<Term>> = (0..n)
        .map(|i| {
            (0..if chance(1, 10) { range(4, 40) } else { range(1, 3) })
                .map(|_| match choose(7) {
                    5 => Term::Terminal(format!("<{lhs}>")),
                    6 => Term::Nonterminal(lhs.to_uppercase() + "'"),
                    0 => Term::Terminal(format!("x{i}")),
                    1 => Term::Nonterminal(lhs.into()),
                    2 => Term::Nonterminal("other".into()),
                    // a terminal that reads like the rule's own name
                    3 => Term::Terminal(lhs.into()),
                    _ => Term::Terminal(String::new()),
                })
                .collect()
        })
        .collect();
    sim(|| Production::from_parts(Term::Nonterminal(lhs.into()), alts.into_iter().map(Expression::from_parts).collect()))
}
fn judge_weight(p: &Production, w: &[u64], i: usize) {
    let total: u64 = w.iter().sum();
    check!(total == 0 || w[i] > 0, "zero-weight", "alternative {i} of {p} was picked although its weight is 0 (weights {w:?})");
}
pub fn run_c08() {
    crate::env::set_env(draw_env());
    let mk = |r: u32, n: u32| match choose(4) {
        0 => sim(|| Weighted::new(r, n)),
        1 => {
            let mut w = sim(Weighted::default);
            w.recursive_weight = r;
            w.non_recursive_weight = n;
            w
        }
        _ => {
            let s = edge_seed(u64_());
            sim(|| Weighted::from_seed(r, n, s))
        }
    };
    let mut s = mk(weight(), weight());
    nontrivial();
    let c = gen_case(false);
    let how = c.how();
    let h = Held::new(|| c.build(how));
    let model = sim_free_model(&c, h.get());
    for _ in 0..range(1, 3) {
        if chance(1, 2) {
            count(F_RETUNE);
            if chance(1, 2) {
                s.recursive_weight = weight();
            } else {
                s.non_recursive_weight = weight();
            }
        }
        let (rw, nw) = (s.recursive_weight, s.non_recursive_weight);
        if rw >= 1 << 31 || nw >= 1 << 31 {
            count(P_BIGW);
        }
        ev!("weights recursive {rw} other {nw}");
        case_sig(&format!("{rw} {nw}"));
        if chance(1, 2) {
            let f = draw_faults(true);
            ev!("generation:\n{}", render_grammar(&model));
            let (r, _) = drive(h.get(), &model, &mut s, f, 200, &mut |p, _, i| {
                judge_weight(p, &weights_of(p, rw, nw), i);
                ev!("choose {} -> {i}", p.lhs);
                sig(i as u64);
            });
            ev!("result {r:?}");
        } else {
            let p = random_rule();
            case_sig(&p.to_string());
            let w = weights_of(&p, rw, nw);
            let total: u64 = w.iter().sum();
            let n = 3000usize;
            ev!("{n} choices of {p} with weights {w:?}");
            count(P_STAT);
            let mut hits = vec![0usize; w.len()];
            for k in 0..n {
                let i = pick_index("weighted", &p, must("choose", || s.choose(&p, k % 7)));
                judge_weight(&p, &w, i);
                hits[i] += 1;
            }
            ev!("hits {hits:?}");
            if total > 0 {
                for (i, wi) in w.iter().enumerate() {
                    let q = *wi as f64 / total as f64;
                    let mean = n as f64 * q;
                    let slack = 8.0 * (mean * (1.0 - q)).sqrt() + 12.0;
                    check!((hits[i] as f64 - mean).abs() <= slack, "proportion", "alternative {i} of {p} was picked {} times in {n}, its weight calls for {mean:.1} (weights {w:?})", hits[i]);
                }
            }
            sim(|| drop(p));
        }
        let _ = Want::Done;
    }
    sim(|| drop(s));
    h.free();
}
