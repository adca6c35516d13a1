//! C16: iterations over inputs with endlessly many derivations.

use super::common::*;
use crate::env::{self, sim};
use crate::r#gen::*;
use crate::model::*;
use crate::run::*;
use crate::{check, ev, violate};
use bnf::{GrammarParser, Term};
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::Relaxed;

/// Steps (allocations and hashes) within which the wanted derivations must have turned up.
const STEPS: u64 = 2_000_000;
/// Partial derivations that may have to be examined first (a breadth-first order takes well under
/// a hundred steps for each).
const WORK: u64 = 30_000;

/// Small grammars in which some name derives itself.
fn cyclic_case() -> MG {
    let mut mg = match choose(8) {
        0 => MG { prods: vec![p("s", vec![vec![n("s")], vec![n("a")], vec![n("b")]]), p("a", vec![vec![t("x")]]), p("b", vec![vec![t("x")]])] },
        1 => MG { prods: vec![p("s", vec![vec![n("a")], vec![t("x")]]), p("a", vec![vec![n("s")], vec![n("b")], vec![t("x")]]), p("b", vec![vec![t("x")]])] },
        2 => MG { prods: vec![p("s", vec![vec![n("e"), n("s")], vec![t("x")], vec![t("y")]]), p("e", vec![vec![t("")]])] },
        3 => MG { prods: vec![p("l", vec![vec![n("i")], vec![n("i"), n("l")]]), p("i", vec![vec![n("i")], vec![t("x")], vec![t("y")]])] },
        4 => MG { prods: vec![p("s", vec![vec![n("e"), t("x")], vec![t("x"), n("e")]]), p("e", vec![vec![n("e")], vec![t("")], vec![n("f")]]), p("f", vec![vec![t("")]])] },
        5 => {
            // a long way round, with ways out
            let k = range(2, 12);
            let mut prods = vec![];
            for i in 0..k {
                let mut alts = vec![vec![n(&format!("c{}", (i + 1) % k))]];
                if i + 1 == k || chance(1, 3) {
                    alts.push(vec![t("x")]);
                }
                prods.push(p(&format!("c{i}"), alts));
            }
            MG { prods }
        }
        _ => {
            let mut m = parse_case(&GOpt { extended: false, max_names: 3, ..PARSEABLE }).mg;
            let names = names_of(&m);
            let x = pick(&names).clone();
            let y = pick(&names).clone();
            let i = m.prods.iter().position(|p| p.0 == x).unwrap();
            m.prods[i].1.push(vec![n(&y)]);
            if x != y {
                let j = m.prods.iter().position(|p| p.0 == y).unwrap();
                m.prods[j].1.push(vec![n(&x)]);
            }
            m
        }
    };
    // every alternative once, in any order
    let mut seen = BTreeSet::new();
    for (l, alts) in &mut mg.prods {
        alts.retain(|a| seen.insert((l.clone(), a.clone())));
        for i in (1..alts.len()).rev() {
            let j = i - choose(i + 1);
            alts.swap(i, j);
        }
    }
    mg.prods.retain(|p| !p.1.is_empty());
    mg
}

/// One iteration and the derivations that have to turn up in it.
struct Reading {
    id: usize,
    api: usize,
    exp: PExp,
    it: Option<Iter>,
    start: Held<Term>,
    input: Held<String>,
    parser: Option<Held<GrammarParser<'static>>>,
    left: BTreeSet<String>,
    seen: BTreeSet<String>,
    order: Vec<String>,
    infinite: bool,
    steps: u64,
}

/// A start and an input whose derivations come from few partial ones.
fn draw_reading(mg: &MG) -> Option<(PExp, BTreeSet<String>, bool)> {
    let names = names_of(mg);
    for _ in 0..4 {
        let start = if chance(1, 3) { pick(&names).clone() } else { mg.start().to_string() };
        let i = input(mg, &start, [5, 2, 1][choose(3)]);
        if i.len() > 8 {
            continue;
        }
        let turns = choose(5);
        let d = Deriv::new(mg, &i);
        let Some(w) = turned(&d, &start, turns, 40) else { continue };
        if w.is_empty() {
            continue;
        }
        // whatever is examined breadth first before the last of them is no higher than this
        let height = 2 * w.iter().map(|t| t.size()).max().unwrap() + 4;
        if d.work_up_to(height, WORK) >= WORK {
            continue;
        }
        let infinite = turned(&d, &start, turns + 1, 400).is_none_or(|v| v.len() > w.len());
        let exp = PExp { mg: mg.clone(), start, input: i, trees: None, total: 0 };
        return Some((exp, w.iter().map(|t| t.canon()).collect(), infinite));
    }
    None
}

impl Reading {
    /// Read up to n trees; stop early when nothing is awaited any more, unless `more`.
    fn read(&mut self, case: &GCase, n: usize, more: bool) {
        let who = format!("iteration {} (api{} <{}> {:?})", self.id, self.api, self.exp.start, self.exp.input);
        for _ in 0..n {
            if self.left.is_empty() && !(more && self.infinite) {
                break;
            }
            let due = !self.left.is_empty();
            let it = self.it.as_mut().unwrap();
            let before = env::ALLOCS.load(Relaxed);
            let tight = due.then(|| Tight::within(STEPS - self.steps.min(STEPS - 1)));
            let soft = Soft::when(!due);
            let t = sim(|| it.next());
            drop(soft);
            drop(tight);
            if due {
                self.steps += env::ALLOCS.load(Relaxed) - before;
            }
            let Some(t) = t else {
                ev!("{who}: end after {}", self.order.len());
                if due {
                    violate!("missing-trees", "{who}: ended after {} trees without {}\ngrammar:\n{}", self.order.len(), self.left.first().unwrap(), case.show());
                }
                violate!("dried-up", "{who}: ended after {} trees, but there are endlessly many derivations\ngrammar:\n{}", self.order.len(), case.show());
            };
            count(P_TREES);
            let m = tree_of(&t, &case.anon());
            let c = m.canon();
            sim(|| drop(t));
            check!(self.seen.insert(c.clone()), "repeated-tree", "{who}: yielded the same derivation twice: {c}\ngrammar:\n{}", case.show());
            self.exp.judge(&who, &m, &c, 1);
            if self.order.len() < 40 {
                ev!("{who}: tree {c}");
            }
            self.left.remove(&c);
            self.order.push(c);
            if due && self.steps >= STEPS {
                violate!("starved", "{who}: {} trees yielded in {} steps, and still waiting for {}\ngrammar:\n{}", self.order.len(), self.steps, self.left.first().map_or("", |s| s), case.show());
            }
        }
    }
}

/// Thousands of trees of one iteration, each one level or two higher than some other.
fn long(e: env::EnvCfg) {
    env::set_env(env::EnvCfg { hash_mode: 0, ..e });
    let mg = match choose(3) {
        0 => MG { prods: vec![p("s", vec![vec![n("s")], vec![t("x")]])] },
        1 => MG { prods: vec![p("s", vec![vec![n("a")], vec![t("x")]]), p("a", vec![vec![n("s")]])] },
        _ => MG { prods: vec![p("s", vec![vec![t("x")], vec![n("s"), n("e")]]), p("e", vec![vec![t("")]])] },
    };
    let case = GCase::plain(mg, false);
    let how = case.how();
    let k = [300, 700, 1300, 2600][choose(4)];
    ev!("{k} trees of\n{}", case.show());
    case_sig(&format!("long {k} {}", case.show()));
    note_grammar(&case);
    nontrivial();
    count(P_ENDLESS);
    let g = Held::new(|| case.build(how));
    let pr = Held::new(|| g.get().build_parser().ok().expect("valid"));
    let start = Held::new(|| Term::Nonterminal("s".into()));
    let api = choose(4);
    let mut it = sim(|| open(g.get(), Some(pr.get()), "x", start.get(), api));
    let mut heights = BTreeSet::new();
    for i in 0..k {
        let Some(t) = sim(|| it.next()) else {
            violate!("dried-up", "ended after {i} trees, but there are endlessly many derivations\ngrammar:\n{}", case.show());
        };
        count(P_TREES);
        let mut h = 1;
        let mut at = &t;
        while let Some(bnf::ParseTreeNode::Nonterminal(c)) = at.rhs_iter().next() {
            h += 1;
            at = c;
        }
        check!(heights.insert(h), "repeated-tree", "tree {i} is {h} levels high, like an earlier one\ngrammar:\n{}", case.show());
        sim(|| drop(t));
    }
    // the lowest are all there by now
    let low = *heights.iter().nth(k / 10).unwrap();
    check!(low <= 2 * (k / 10 + 1), "starved", "{k} trees, the {}th lowest has {low} levels\ngrammar:\n{}", k / 10 + 1, case.show());
    sim(|| drop(it));
    start.free();
    pr.free();
    g.free();
}

pub fn run() {
    let e0 = draw_env();
    env::set_env(e0);
    if chance(1, 700) && !repeated() {
        return long(e0);
    }
    let mg = 'found: {
        for _ in 0..8 {
            let mg = cyclic_case();
            if mg.cyclic() && mg.undefined().is_empty() {
                break 'found mg;
            }
        }
        skip()
    };
    let case = GCase::plain(mg, chance(1, 3));
    let how = case.how();
    note_grammar(&case);
    ev!("grammar built by {how:?}:\n{}", case.show());
    let g = Held::new(|| case.build(how));
    let gr = g.get();
    let build = || {
        Held::new(|| match gr.build_parser() {
            Ok(p) => p,
            Err(e) => env::harness(|| violate!("validation", "build_parser refused a valid grammar: {e}\n{}", case.show())),
        })
    };
    let shared = build();
    let mut rs: Vec<Reading> = vec![];
    let steps = range(3, 24);
    for step in 0..steps {
        let live: Vec<usize> = (0..rs.len()).filter(|i| rs[*i].it.is_some()).collect();
        let what = if live.is_empty() { 0 } else { weighted(&[3, 8, 2, 1, 2]) };
        match what {
            0 => {
                if live.len() >= 5 {
                    continue;
                }
                let Some((mut exp, left, infinite)) = draw_reading(&case.mg) else { continue };
                let mut api = choose(4);
                if api % 2 == 0 && exp.start != case.mg.start() {
                    api += 1;
                }
                exp.total = left.len() as u64;
                let parser = (api < 2 && chance(1, 3)).then(build);
                let start = Held::new(|| Term::Nonterminal(exp.start.clone()));
                let input = Held::new(|| exp.input.clone());
                let pr = parser.as_ref().unwrap_or(&shared).get();
                let it = sim(|| open(gr, Some(pr), input.get(), start.get(), api));
                count(P_PARSE);
                count(P_CYCLIC);
                count_n(P_WANTED, left.len() as u64);
                if infinite {
                    count(P_ENDLESS);
                }
                nontrivial();
                ev!("step {step}: open iteration {}: api{api} <{}> {:?}, waiting for {} derivations, {}", rs.len(), exp.start, exp.input, left.len(), if infinite { "endless" } else { "perhaps not endless" });
                case_sig(&format!("{}{:?}{api}", exp.start, exp.input));
                rs.push(Reading { id: rs.len(), api, exp, it: Some(it), start, input, parser, left, seen: BTreeSet::new(), order: vec![], infinite, steps: 0 });
            }
            1 | 2 => {
                let i = *pick(&live);
                if live.len() > 1 {
                    count(P_LIVE2);
                }
                sig(i as u64 * 8 + what as u64);
                let n = if what == 1 { range(1, 4) } else { [10, 40, 150][choose(3)] };
                rs[i].read(&case, n, chance(1, 3));
            }
            3 => {
                let i = *pick(&live);
                count(F_ABANDON);
                sig(1000 + i as u64);
                ev!("step {step}: abandon iteration {i} after {} trees", rs[i].order.len());
                let it = rs[i].it.take();
                sim(|| drop(it));
            }
            _ => {
                let g2 = sim(|| gr.clone());
                let ok = sim(|| g2 == *gr && gr.validate().is_ok());
                check!(ok, "validation", "a clone differs or a valid grammar is refused\n{}", case.show());
                sim(|| drop(g2));
            }
        }
    }
    // nobody else runs any more: everything awaited turns up
    count(P_HEALED);
    for r in rs.iter_mut().filter(|r| r.it.is_some()) {
        r.read(&case, usize::MAX, false);
        if r.infinite && chance(1, 4) {
            // and it goes on
            let n = [10, 40, 120][weighted(&[4, 2, 1])];
            r.read(&case, n, true);
        }
    }
    // the same trees when read by other methods, in another environment
    if chance(1, 2) {
        env::set_env(draw_env());
        for r in rs.iter().filter(|r| !r.order.is_empty() && r.order.len() < 400) {
            if !chance(1, 2) {
                continue;
            }
            count(P_WAYS);
            let k = choose(r.order.len());
            let mut it = sim(|| open(gr, Some(shared.get()), r.input.get(), r.start.get(), r.api));
            let t = match choose(3) {
                0 => sim(|| it.nth(k)),
                1 => {
                    let mut c = 0;
                    sim(|| {
                        it.find(|_| {
                            c += 1;
                            c > k
                        })
                    })
                }
                _ => sim(|| it.by_ref().skip(k).next()),
            };
            let got = t.as_ref().map(|t| tree_of(t, &case.anon()).canon());
            check!(got.as_ref() == Some(&r.order[k]), "ways", "tree {k} of <{}> {:?} read by another method is {got:?}, but next() yields {}\ngrammar:\n{}", r.exp.start, r.exp.input, r.order[k], case.show());
            sim(|| {
                drop(t);
                drop(it);
            });
        }
    }
    for r in rs {
        let Reading { it, start, input, parser, .. } = r;
        sim(|| drop(it));
        if let Some(p) = parser {
            p.free();
        }
        start.free();
        input.free();
    }
    shared.free();
    g.free();
}
