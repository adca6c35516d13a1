//! C05: a panic in caller-supplied code (strategy, callback, sink) is a crash of that call only.

use super::c01::{Session, advance};
use super::c04::{Injected, Plan, Sim0, supervised, sim_free_model};
use super::common::*;
use crate::env::{harness, sim};
use crate::r#gen::*;
use crate::model::*;
use crate::run::*;
use crate::sched;
use crate::{check, ev, violate};
use bnf::rand::SeedableRng;
use bnf::rand::rngs::StdRng;
use bnf::{Grammar, GrammarParser, ParseTree, Term};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::rc::Rc;

/// A sink that panics at its k-th write.
pub struct PanicSink {
    pub left: usize,
    pub got: String,
}
impl std::fmt::Write for PanicSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        harness(|| {
            sched::yield_point();
            if self.left == 0 {
                count(F_PANIC_SINK);
                std::panic::panic_any(Injected);
            }
            self.left -= 1;
            self.got.push_str(s);
        });
        Ok(())
    }
}
impl std::io::Write for PanicSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        harness(|| {
            sched::yield_point();
            if self.left == 0 {
                count(F_PANIC_SINK);
                std::panic::panic_any(Injected);
            }
            self.left -= 1;
            Ok(b.len())
        })
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Runs `f`; true if the injected panic came out. Any other panic is a violation.
fn interrupted(what: &str, f: impl FnOnce()) -> bool {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(p) if p.is::<Injected>() => true,
        Err(p) => violate!("panic", "{what}: the caller's panic became another one: {}", panic_text(&*p)),
    }
}

struct World<'a> {
    case: &'a GCase,
    model: &'a MG,
    g: &'static Grammar,
    walk: bool,
    gen_ok: bool,
    trees: &'a [(ParseTree<'static>, String, usize, usize)],
}

/// One call that is cut short by a panic (if the drawn point is reached).
fn strike(w: &World) {
    let kind = weighted(&[if w.gen_ok { 5 } else { 0 }, if w.walk { 3 } else { 0 }, 3, if w.trees.is_empty() { 0 } else { 3 }, 1, 1]);
    match kind {
        0 => {
            let at = range(1, 24);
            let plan = Plan { reject_num: choose(3), reject_run: 0, refuse_at: None, panic_at: Some(at), reenter: false, heal_after: 40, grow: choose(4), deep: 60 };
            let s = Sim0::new(w.model, plan, None);
            ev!("generation, caller panics at its entry {at}");
            let r = supervised(w.g, &s, true);
            let s = &mut *s.borrow_mut();
            match r {
                None => check!(s.panicked, "panic", "an injected panic came out that was never raised"),
                Some(r) => {
                    check!(!s.panicked, "swallowed", "the caller's panic never reached the caller; the call returned {r:?}\n{}", w.case.show());
                    s.m.finish(&r);
                }
            }
        }
        1 => {
            let at = range(1, 12) as u32;
            let n = Cell::new(0u32);
            let raised = Cell::new(false);
            let mut rng = StdRng::from_seed(seed32(u64_()));
            ev!("seeded generation, callback panics at its call {at}");
            let hit = interrupted("seeded generation", || {
                let r = sim(|| {
                    bnfcalls::seeded_callback(w.g, &mut rng, &|_, _| {
                        harness(|| {
                            sched::yield_point();
                            n.set(n.get() + 1);
                            if n.get() == at {
                                raised.set(true);
                                count(F_PANIC_CB);
                                std::panic::panic_any(Injected);
                            }
                        });
                        true
                    })
                });
                check!(!raised.get(), "swallowed", "the callback's panic never reached the caller; the call returned {r:?}");
                check!(r.is_ok(), "spurious-error", "seeded generation failed: {r:?}\n{}", w.case.show());
            });
            check!(hit == raised.get(), "swallowed", "panic raised {} but seen {hit}", raised.get());
        }
        2 | 3 | 5 => {
            let at = choose(30);
            let mut sink = PanicSink { left: at, got: String::new() };
            let what = choose(4);
            ev!("formatting ({kind}/{what}), sink panics at write {at}");
            let t = if kind == 3 { Some(&w.trees[choose(w.trees.len())].0) } else { None };
            let k = choose(w.model.prods.len());
            let returned = Cell::new(None);
            let hit = interrupted("formatting", || {
                let r = sim(|| match t {
                    Some(t) if what % 2 == 0 => write!(sink, "{t}"),
                    Some(t) => write!(sink, "{}", t.mermaid()),
                    None => match (what, w.g.productions_iter().nth(k)) {
                        (0, _) | (_, None) => write!(sink, "{}", w.g),
                        (1, Some(p)) => write!(sink, "{p}"),
                        (2, Some(p)) => p.rhs_iter().try_for_each(|e| write!(sink, "{e}")),
                        (_, Some(p)) => p.rhs_iter().flat_map(|e| e.terms_iter()).try_for_each(|t| write!(sink, "{t}")),
                    },
                });
                returned.set(Some(r.is_ok()));
            });
            check!(hit || returned.get() == Some(true), "swallowed", "formatting into a panicking sink returned {:?}", returned.get());
        }
        _ => {
            let mut sink = PanicSink { left: choose(20), got: String::new() };
            ev!("serialising, writer panics after {} writes", sink.left);
            interrupted("serialising", || {
                let _ = sim(|| bnfcalls::json_to(&mut sink, false, w.g).is_ok());
            });
        }
    }
}

/// A deep tree, drawn again and again into sinks that give up late; then it (and another parse)
/// must still be what it was.
fn deep() {
    count(P_DEEP);
    let (mg, t) = long_trees();
    let case = GCase::plain(mg, false);
    note_grammar(&case);
    let how = case.how();
    let exp = PExp::known(&case.mg, &t);
    let held = Held::new(|| case.build(how));
    let input = Held::new(|| exp.input.clone());
    let (g, inp) = (held.get(), input.get());
    let read = || {
        let p = Held::new(|| match g.build_parser() {
            Ok(p) => p,
            Err(e) => harness(|| violate!("validation", "build_parser refused a valid grammar: {e}")),
        });
        let pr = p.get();
        let ts: Vec<ParseTree<'static>> = sim(|| pr.parse_input(inp).collect());
        let mut seen: BTreeMap<String, u64> = BTreeMap::new();
        for t in &ts {
            let m = tree_of(t, &case.anon());
            let c = m.canon();
            let k = seen.entry(c.clone()).or_default();
            *k += 1;
            exp.judge("long input", &m, &c, *k);
        }
        exp.judge_end("long input", ts.len() as u64);
        (ts, p)
    };
    let (trees, p1) = read();
    let k = choose(trees.len());
    let tree = &trees[k];
    let was = sim(|| (tree.to_string(), tree.mermaid().to_string()));
    // how many writes a drawing takes
    let writes = |chart: bool| {
        let mut s = PanicSink { left: usize::MAX, got: String::new() };
        let r = sim(|| if chart { write!(s, "{}", tree.mermaid()) } else { write!(s, "{tree}") });
        check!(r.is_ok(), "changed", "a sink that never fails got {r:?}");
        usize::MAX - s.left
    };
    let total = [writes(false), writes(true)];
    let strikes = range(1, 40).min(30_000 / total[0].max(total[1]) + 2);
    ev!("deep tree, {} bytes of text, {strikes} strikes", inp.len());
    nontrivial();
    for i in 0..strikes {
        let chart = chance(1, 3);
        let n = total[chart as usize];
        let at = if chance(3, 4) { n - 1 - choose(n.min(40)) } else { choose(n) };
        let mut sink = PanicSink { left: at, got: String::new() };
        sig(at as u64);
        let hit = interrupted("drawing a deep tree", || {
            let _ = sim(|| if chart { write!(sink, "{}", tree.mermaid()) } else { write!(sink, "{tree}") });
        });
        check!(hit, "swallowed", "strike {i}: the sink's panic at write {at} of {n} was swallowed");
        if chance(1, 6) {
            let now = sim(|| (tree.to_string(), tree.mermaid().to_string()));
            check!(now == was, "changed", "after {} interrupted drawings a tree is drawn as\n{}{}\nbut before\n{}{}", i + 1, now.0, now.1, was.0, was.1);
        }
    }
    let more = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sim(|| (tree.to_string(), tree.mermaid().to_string()))));
    match more {
        Ok(now) => check!(now == was, "changed", "after {strikes} interrupted drawings a tree is drawn as\n{}{}\nbut before\n{}{}", now.0, now.1, was.0, was.1),
        Err(p) => violate!("changed", "after {strikes} interrupted drawings drawing the tree again panics: {}", panic_text(&*p)),
    }
    let (again, p2) = read();
    sim(|| {
        drop(again);
        drop(trees);
    });
    p1.free();
    p2.free();
    held.free();
    input.free();
}

pub fn run() {
    let e0 = draw_env();
    crate::env::set_env(e0);
    if chance(1, 70) && !repeated() {
        return deep();
    }
    let (cases, walks) = draw_pool(range(1, 2), false);
    let hows: Vec<How> = cases.iter().map(|c| c.how()).collect();
    let ops: Vec<Op> = (0..range(1, 4)).map(|_| draw_op(&cases, &walks)).collect();
    for o in &ops {
        ev!("op: {}", o.name());
        case_sig(&o.name());
    }
    let es = draw_env();
    let expected: Vec<String> = {
        let (cases, hows, ops) = (&cases, &hows, &ops);
        fresh(es, move || {
            let held = build_all(cases, hows);
            let gs: Vec<&'static Grammar> = held.iter().map(|h| h.get()).collect();
            let r = ops.iter().map(|o| exec(o, cases, &gs)).collect();
            for h in held {
                h.free();
            }
            r
        })
    };
    let held = build_all(&cases, &hows);
    let gs: Vec<&'static Grammar> = held.iter().map(|h| h.get()).collect();
    let models: Vec<MG> = cases.iter().zip(&gs).map(|(c, g)| sim_free_model(c, g)).collect();
    let gen_ok: Vec<bool> = models.iter().map(|m| !m.prods.is_empty() && m.undefined().is_empty() && !has_unchoosable(m)).collect();
    // open iterations and trees that must survive
    let mut parsers: Vec<Option<Held<GrammarParser<'static>>>> = vec![];
    let mut ss: Vec<Session> = vec![];
    let mut trees: Vec<(ParseTree<'static>, String, usize, usize)> = vec![];
    let mut drawings: Vec<(String, String)> = vec![];
    for i in 0..range(1, 3) {
        let g = choose(cases.len());
        let names = names_of(&cases[g].mg);
        let api = choose(4);
        let start = if api % 2 == 1 { pick(&names).clone() } else { cases[g].mg.start().to_string() };
        let exp = draw_parse(&cases[g].mg, &start);
        let p = (api < 2).then(|| {
            Held::new(|| match gs[g].build_parser() {
                Ok(p) => p,
                Err(e) => harness(|| violate!("validation", "build_parser refused a valid grammar: {e}")),
            })
        });
        let st = Held::new(|| Term::Nonterminal(exp.start.clone()));
        let inp = Held::new(|| exp.input.clone());
        let it = sim(|| open(gs[g], p.as_ref().map(|p| p.get()), inp.get(), st.get(), api));
        count(P_PARSE);
        ev!("session {i}: g{g} api{api} <{}> {:?}", exp.start, exp.input);
        let cap = if exp.trees.is_none() { 3 } else { usize::MAX };
        let mut s = Session { id: i, g, parser: None, api, exp, it: Some(it), start: Some(st), input: Some(inp), seen: BTreeMap::new(), order: vec![], ended: false, cap, touched: 0 };
        let n = choose(3);
        if n > 0 {
            advance(&mut s, &cases, n, &mut trees);
        }
        parsers.push(p);
        ss.push(s);
    }
    for t in &trees {
        drawings.push(sim(|| (t.0.to_string(), t.0.mermaid().to_string())));
    }
    let strikes = if chance(1, 12) { [range(8, 40), range(41, 300)][weighted(&[7, 1])] } else { range(1, 4) };
    nontrivial();
    if chance(1, 4) {
        // strikes on one thread while others work
        let nt = range(2, 3);
        let results: Vec<Rc<RefCell<Vec<String>>>> = (0..nt).map(|_| Default::default()).collect();
        let mut bodies: Vec<Box<dyn FnOnce()>> = vec![];
        for t in 0..nt {
            let gs = gs.clone();
            let (cs, ms, go, wk, op): (&'static [GCase], &'static [MG], &'static [bool], &'static [bool], &'static [Op]) = unsafe {
                (
                    std::mem::transmute(cases.as_slice()),
                    std::mem::transmute(models.as_slice()),
                    std::mem::transmute(gen_ok.as_slice()),
                    std::mem::transmute(walks.as_slice()),
                    std::mem::transmute(ops.as_slice()),
                )
            };
            let out = results[t].clone();
            let te = crate::env::EnvCfg { hash_seed: u64_(), ..e0 };
            bodies.push(Box::new(move || {
                crate::env::set_env(te);
                if t == 0 {
                    for _ in 0..strikes {
                        let g = choose(cs.len());
                        strike(&World { case: &cs[g], model: &ms[g], g: gs[g], walk: wk[g], gen_ok: go[g], trees: &[] });
                    }
                }
                for o in op {
                    out.borrow_mut().push(exec(o, cs, &gs));
                }
            }));
        }
        sched::run_threads(bodies, range(1, 5), 1);
        for (t, r) in results.iter().enumerate() {
            for (i, o) in ops.iter().enumerate() {
                check!(r.borrow()[i] == expected[i], "changed", "thread {t}: after a caller's panic on thread 0, {} gives\n{}\nbut without it\n{}\ngrammars:\n{}", o.name(), r.borrow()[i], expected[i], cases.iter().map(|c| c.show()).collect::<Vec<_>>().join("\n"));
            }
        }
    } else {
        for _ in 0..strikes {
            let g = choose(cases.len());
            strike(&World { case: &cases[g], model: &models[g], g: gs[g], walk: walks[g], gen_ok: gen_ok[g], trees: &trees });
            if chance(1, 2) {
                let i = choose(ss.len());
                sig(i as u64);
                advance(&mut ss[i], &cases, 1, &mut trees);
                while drawings.len() < trees.len() {
                    let t = &trees[drawings.len()].0;
                    drawings.push(sim(|| (t.to_string(), t.mermaid().to_string())));
                }
            }
            if chance(1, 2) {
                let k = choose(ops.len());
                let r = exec(&ops[k], &cases, &gs);
                check!(r == expected[k], "changed", "after a caller's panic {} gives\n{r}\nbut without it\n{}\ngrammars:\n{}", ops[k].name(), expected[k], cases.iter().map(|c| c.show()).collect::<Vec<_>>().join("\n"));
            }
        }
    }
    for s in ss.iter_mut() {
        advance(s, &cases, usize::MAX, &mut trees);
    }
    for (k, d) in drawings.iter().enumerate() {
        let t = &trees[k];
        let now = tree_of(&t.0, &cases[t.2].anon()).canon();
        let dn = sim(|| (t.0.to_string(), t.0.mermaid().to_string()));
        check!(now == t.1 && dn == *d, "changed", "a tree held across a caller's panic reads differently:\n{now}\nwas {}\n{}{}\nwas\n{}{}", t.1, dn.0, dn.1, d.0, d.1);
    }
    for (k, o) in ops.iter().enumerate() {
        let r = exec(o, &cases, &gs);
        check!(r == expected[k], "changed", "after {strikes} interrupted calls {} gives\n{r}\nbut without them\n{}\ngrammars:\n{}", o.name(), expected[k], cases.iter().map(|c| c.show()).collect::<Vec<_>>().join("\n"));
    }
    for (i, g) in gs.iter().enumerate() {
        let same = sim(|| cases[i].build(hows[i]) == **g);
        check!(same, "changed", "a grammar changed after interrupted calls:\n{}", cases[i].show());
    }
    sim(|| {
        drop(trees);
        for s in ss.iter_mut() {
            drop(s.it.take());
        }
    });
    for p in parsers.into_iter().flatten() {
        p.free();
    }
    for h in held {
        h.free();
    }
}
