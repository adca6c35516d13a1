//! C01: interleaved, suspended and abandoned parse iterations.

use super::common::*;
use crate::env::sim;
use crate::r#gen::*;
use crate::model::*;
use crate::run::*;
use crate::{check, ev, violate};
use bnf::rand::SeedableRng;
use bnf::{Grammar, GrammarParser, ParseTree, Term};
use std::collections::BTreeMap;

pub struct Session {
    pub id: usize,
    pub g: usize,
    pub parser: Option<usize>,
    pub api: usize,
    pub exp: PExp,
    pub it: Option<Iter>,
    pub start: Option<Held<Term>>,
    pub input: Option<Held<String>>,
    pub seen: BTreeMap<String, u64>,
    pub order: Vec<String>,
    pub ended: bool,
    pub cap: usize,
    pub touched: usize,
}

/// An input with hundreds or thousands of derivations, read from beginning to end (in turns with
/// another reading of it) and then again by one of the iterator's other methods.
fn crowd() {
    count(P_CROWD);
    let (mg, len) = match choose(4) {
        0 => (MG { prods: vec![p("s", vec![vec![n("s"), n("s")], vec![t("a")]])] }, range(7, 9)),
        1 => (MG { prods: vec![p("s", vec![vec![t("a")], vec![t("a"), n("s")], vec![n("s"), t("a")]])] }, range(8, 11)),
        2 => (MG { prods: vec![p("s", vec![vec![n("x"), n("s")], vec![n("x")]]), p("x", vec![vec![n("p")], vec![n("q")]]), p("p", vec![vec![t("a")]]), p("q", vec![vec![t("a")]])] }, range(7, 10)),
        _ => (MG { prods: vec![p("s", vec![vec![n("s"), t("a"), n("s")], vec![t("")]])] }, range(7, 8)),
    };
    let input = "a".repeat(len);
    let Some(exp) = PExp::capped(&mg, "s", &input, 5000, 2_000_000) else { skip() };
    drink(mg, exp);
}
/// Very many items, levels, alternatives or waiting rules.
fn bulk(e: crate::env::EnvCfg) {
    // hash tables that degenerate into lists would make this quadratic
    crate::env::set_env(crate::env::EnvCfg { hash_mode: 0, ..e });
    let (mg, trees) = bulk_case();
    let exp = PExp::known(&mg, &trees);
    drink(mg, exp);
}
/// Two iterations of the input in turns, then again by another of the iterator's methods.
fn drink(mg: MG, exp: PExp) {
    let case = GCase::plain(mg, false);
    note_grammar(&case);
    let input = exp.input.clone();
    ev!("{} derivations of {input:?}\n{}", exp.total, case.show());
    case_sig(&format!("{}{input}", case.show()));
    let how = case.how();
    let g = Held::new(|| case.build(how));
    let gr = g.get();
    let pr = Held::new(|| match gr.build_parser() {
        Ok(p) => p,
        Err(e) => crate::env::harness(|| violate!("validation", "build_parser refused a valid grammar: {e}")),
    });
    nontrivial();
    let start = Held::new(|| Term::Nonterminal(exp.start.clone()));
    let inp = Held::new(|| input.clone());
    let session = |id: usize, api: usize| Session {
        id,
        g: 0,
        parser: None,
        api,
        exp: exp.clone(),
        it: Some(sim(|| open(gr, Some(pr.get()), inp.get(), start.get(), api))),
        start: None,
        input: None,
        seen: BTreeMap::new(),
        order: vec![],
        ended: false,
        cap: usize::MAX,
        touched: 0,
    };
    let mut a = session(0, choose(4));
    let mut b = session(1, choose(4));
    let mut none = vec![];
    let cases = std::slice::from_ref(&case);
    for _ in 0..range(1, 6) {
        let k = [1, 7, 60, 300][choose(4)];
        advance(&mut a, cases, k, &mut none);
        if chance(1, 2) {
            advance(&mut b, cases, [1, 10][choose(2)], &mut none);
        }
    }
    advance(&mut a, cases, usize::MAX, &mut none);
    check!(a.ended, "endless", "the iteration has not ended after {} trees", a.order.len());
    check!(a.order.starts_with(&b.order), "order", "two iterations of {input:?} yield different trees, or the same in another order\n{}", case.show());
    let canon = |t: ParseTree<'static>| {
        crate::env::harness(|| {
            let c = tree_of(&t, &case.anon()).canon();
            sim(|| drop(t));
            c
        })
    };
    let way = Way::draw();
    ev!("read by {way:?}");
    count(P_WAYS);
    let api = choose(4);
    let r = sim(|| consume(gr, Some(pr.get()), inp.get(), start.get(), api, &way, &a.order, &canon));
    if let Err(m) = r {
        let m: String = m.chars().take(2000).collect();
        violate!("ways", "<{}> {input:?} read by {way:?}: {m}\nbut next() alone yields {} trees\ngrammar:\n{}", exp.start, a.order.len(), case.show());
    }
    let (x, y) = (a.it.take(), b.it.take());
    sim(|| {
        drop(none);
        drop(x);
        drop(y);
    });
    start.free();
    inp.free();
    pr.free();
    g.free();
}

pub fn run() {
    let e0 = draw_env();
    crate::env::set_env(e0);
    if chance(1, 350) && !repeated() {
        return crowd();
    }
    if chance(1, 400) && !repeated() {
        return bulk(e0);
    }
    let ng = range(1, 3);
    let mut cases = vec![];
    let mut known: Vec<Option<Vec<Tree>>> = vec![];
    for _ in 0..ng {
        if chance(1, 25) {
            let (mg, t) = long_trees();
            count(P_LONGIN);
            cases.push(GCase::plain(mg, false));
            known.push(Some(t));
        } else {
            cases.push(parse_case(&GOpt { cyclic: chance(1, 6), undefined: chance(1, 10), ..PARSEABLE }));
            known.push(None);
        }
    }
    let hows: Vec<How> = cases.iter().map(|c| c.how()).collect();
    for (i, c) in cases.iter().enumerate() {
        note_grammar(c);
        ev!("grammar {i} built by {:?}:\n{}{}", hows[i], c.show(), match hows[i] {
            How::Bnf | How::Auto => c.bnf.clone().unwrap_or_default(),
            How::Abnf => c.abnf.clone().unwrap_or_default(),
            _ => String::new(),
        });
    }
    let mut gs: Vec<Option<Held<Grammar>>> = build_all(&cases, &hows).into_iter().map(Some).collect();
    // (grammar, parser, live sessions)
    let mut parsers: Vec<(usize, Option<Held<GrammarParser<'static>>>, usize)> = vec![];
    let mut ss: Vec<Session> = vec![];
    let mut trees: Vec<(ParseTree<'static>, String, usize, usize)> = vec![];
    let steps = range(4, 40);
    let mut last_touched = usize::MAX;
    let w_abandon = choose(3);
    for step in 0..steps {
        let live: Vec<usize> = (0..ss.len()).filter(|i| ss[*i].it.is_some()).collect();
        let what = if live.is_empty() { 0 } else { weighted(&[3, 10, 2, w_abandon, 2, 1, 1, 1]) };
        match what {
            0 if live.len() < 6 => {
                let g = choose(ng);
                let defined = cases[g].mg.undefined().is_empty();
                let api = if defined { weighted(&[4, 4, 1, 1]) } else { 2 + choose(2) };
                let names = names_of(&cases[g].mg);
                let exp = match &known[g] {
                    Some(t) if !chance(1, 3) => PExp::known(&cases[g].mg, t),
                    _ => {
                        let start = if api % 2 == 1 { pick(&names).clone() } else { cases[g].mg.start().to_string() };
                        draw_parse_from(&cases[g].mg, &start, api % 2 == 1)
                    }
                };
                let parser = if api < 2 {
                    let have: Vec<usize> = (0..parsers.len()).filter(|i| parsers[*i].0 == g && parsers[*i].1.is_some()).collect();
                    if have.is_empty() || (have.len() < 3 && chance(1, 4)) {
                        let gr = gs[g].as_ref().unwrap().get();
                        let p = Held::new(|| match gr.build_parser() {
                            Ok(p) => p,
                            Err(e) => crate::env::harness(|| violate!("validation", "build_parser refused a valid grammar: {e}\n{}", cases[g].show())),
                        });
                        parsers.push((g, Some(p), 0));
                        Some(parsers.len() - 1)
                    } else {
                        Some(*pick(&have))
                    }
                } else {
                    None
                };
                let start = Held::new(|| Term::Nonterminal(exp.start.clone()));
                let input = Held::new(|| exp.input.clone());
                let pr = parser.map(|i| parsers[i].1.as_ref().unwrap().get());
                let gr = gs[g].as_ref().unwrap().get();
                let it = sim(|| open(gr, pr, input.get(), start.get(), api));
                if let Some(i) = parser {
                    parsers[i].2 += 1;
                }
                count(P_PARSE);
                let cap = if exp.trees.is_none() { range(1, 4) } else { usize::MAX };
                let id = ss.len();
                ev!("step {step}: open session {id}: g{g} parser {parser:?} api{api} <{}> {:?}", exp.start, exp.input);
                case_sig(&format!("{g}{:?}{}", exp.input, exp.start));
                ss.push(Session { id, g, parser, api, exp, it: Some(it), start: Some(start), input: Some(input), seen: BTreeMap::new(), order: vec![], ended: false, cap, touched: 0 });
            }
            0 | 1 | 2 => {
                let i = *pick(&live);
                if live.len() > 1 {
                    count(P_LIVE2);
                    nontrivial();
                }
                if last_touched != i && ss[i].touched > 0 {
                    count(P_RESUME);
                }
                last_touched = i;
                sig(i as u64 * 8 + what as u64);
                let n = if what == 2 { usize::MAX } else { 1 };
                advance(&mut ss[i], &cases, n, &mut trees);
            }
            3 => {
                let i = *pick(&live);
                count(F_ABANDON);
                sig(1000 + i as u64);
                ev!("step {step}: abandon session {i} after {} trees", ss[i].order.len());
                let it = ss[i].it.take();
                sim(|| drop(it));
                if let Some(p) = ss[i].parser {
                    parsers[p].2 -= 1;
                }
                if chance(1, 2) {
                    // its input and start term go too; their addresses may be used again
                    trees.retain(|t| t.3 != i);
                    ss[i].start.take().unwrap().free();
                    ss[i].input.take().unwrap().free();
                }
            }
            4 => {
                // unrelated use in between
                let g = choose(ng);
                let gr = gs[g].as_ref().unwrap().get();
                ev!("step {step}: noise on g{g}");
                match choose(5) {
                    0 => {
                        let s = sim(|| gr.to_string());
                        std::hint::black_box(s);
                    }
                    1 => {
                        let ok = sim(|| gr.validate().is_ok());
                        check!(ok == cases[g].mg.undefined().is_empty(), "validation", "validate says {ok}\n{}", cases[g].show());
                    }
                    2 => {
                        let c = sim(|| gr.clone());
                        sim(|| drop(c));
                    }
                    3 => {
                        let mut rng = bnf::rand::rngs::StdRng::from_seed([1; 32]);
                        let mut f = |p: &bnf::Production, _: usize| Some(choose(p.len()));
                        let mut l = Limit { inner: &mut f, left: 60, calls: 0, picks: vec![] };
                        let _ = sim(|| gr.generate_seeded_with_strategy(&mut l));
                        use bnf::rand::Rng;
                        let _ = rng.random::<u8>();
                    }
                    _ => {
                        // idle parsers come and go
                        let idle: Vec<usize> = (0..parsers.len()).filter(|i| parsers[*i].1.is_some() && parsers[*i].2 == 0).collect();
                        if !idle.is_empty() {
                            let i = *pick(&idle);
                            // trees may borrow from the parser: its trees go first
                            trees.retain(|t| ss[t.3].parser != Some(i));
                            parsers[i].1.take().unwrap().free();
                        }
                    }
                }
            }
            5 if !trees.is_empty() => {
                let k = choose(trees.len());
                let now = tree_of(&trees[k].0, &cases[trees[k].2].anon()).canon();
                check!(now == trees[k].1, "tree-changed", "a tree handed out earlier now reads differently: {now} was {}", trees[k].1);
                let s = sim(|| trees[k].0.to_string());
                check!(!s.is_empty(), "tree-changed", "empty drawing");
            }
            7 => {
                let g = choose(ng);
                ev!("step {step}: series on g{g}");
                count(P_SERIES);
                if known[g].is_none() && chance(2, 3) {
                    let gr = gs[g].as_ref().unwrap().get();
                    let have: Vec<usize> = (0..parsers.len()).filter(|i| parsers[*i].0 == g && parsers[*i].1.is_some()).collect();
                    let pr = if have.is_empty() { None } else { Some(parsers[*pick(&have)].1.as_ref().unwrap().get()) };
                    series(&cases[g], gr, pr);
                } else {
                    // one grammar object, overwritten in place again and again
                    let slot = Held::new(Grammar::new);
                    for _ in 0..range(2, 3) {
                        let c = parse_case(&GOpt { max_names: 3, ..PARSEABLE });
                        let how = c.how();
                        ev!("slot holds ({how:?}):\n{}", c.show());
                        sim(|| *slot.get_mut() = c.build(how));
                        let p = Held::new(|| slot.get().build_parser());
                        match p.get() {
                            Ok(pr) => series(&c, slot.get(), Some(pr)),
                            Err(e) => violate!("validation", "build_parser refused a valid grammar: {e}\n{}", c.show()),
                        }
                        p.free();
                    }
                    slot.free();
                }
            }
            _ => {
                // drop a whole grammar nobody uses any more and rebuild it elsewhere (addresses get reused)
                let g = choose(ng);
                let used = ss.iter().any(|s| s.g == g && s.it.is_some());
                if !used {
                    count(F_MOVE);
                    ev!("step {step}: rebuild g{g}");
                    trees.retain(|t| t.2 != g);
                    for p in parsers.iter_mut().filter(|p| p.0 == g) {
                        if let Some(p) = p.1.take() {
                            p.free();
                        }
                    }
                    gs[g].take().unwrap().free();
                    gs[g] = Some(Held::new(|| cases[g].build(hows[g])));
                }
            }
        }
    }
    // finish what is left
    for i in 0..ss.len() {
        if ss[i].it.is_some() && chance(3, 4) {
            advance(&mut ss[i], &cases, usize::MAX, &mut trees);
        }
    }
    // the same iterations alone, on fresh parsers, in another environment
    let env = draw_env();
    let solo: Vec<(Vec<String>, bool)> = {
        let (ss, cases, hows) = (&ss, &cases, &hows);
        fresh(env, move || {
            ss.iter()
                .map(|s| {
                    let g = Held::new(|| cases[s.g].build(hows[s.g]));
                    let p = if s.api < 2 { Some(Held::new(|| g.get().build_parser().ok().unwrap())) } else { None };
                    let start = Held::new(|| Term::Nonterminal(s.exp.start.clone()));
                    let input = Held::new(|| s.exp.input.clone());
                    let mut it: Option<Iter> = Some(sim(|| open(g.get(), p.as_ref().map(|p| p.get()), input.get(), start.get(), s.api)));
                    let mut v = vec![];
                    let mut ended = false;
                    let soft = Soft::when(s.exp.trees.is_none());
                    while v.len() < s.order.len() + s.ended as usize {
                        match sim(|| it.as_mut().unwrap().next()) {
                            Some(t) => v.push(tree_of(&t, &cases[s.g].anon()).canon()),
                            None => {
                                ended = true;
                                break;
                            }
                        }
                    }
                    drop(soft);
                    sim(|| drop(it.take()));
                    if let Some(p) = p {
                        p.free();
                    }
                    g.free();
                    start.free();
                    input.free();
                    (v, ended)
                })
                .collect()
        })
    };
    // the same trees by the iterator's other methods
    for s in &ss {
        if s.ended && s.exp.trees.is_some() && s.order.len() <= 60 && chance(1, 3) {
            let gr = gs[s.g].as_ref().unwrap().get();
            let g2 = Held::new(|| cases[s.g].build(hows[s.g]));
            let gr = if chance(1, 2) { gr } else { g2.get() };
            let p = if s.api < 2 { Some(Held::new(|| gr.build_parser().ok().unwrap())) } else { None };
            let start = Held::new(|| Term::Nonterminal(s.exp.start.clone()));
            let input = Held::new(|| s.exp.input.clone());
            count(P_WAYS);
            let canon = |t: ParseTree<'static>| {
                crate::env::harness(|| {
                    let c = tree_of(&t, &cases[s.g].anon()).canon();
                    sim(|| drop(t));
                    c
                })
            };
            let way = Way::draw();
            let r = sim(|| consume(gr, p.as_ref().map(|p| p.get()), input.get(), start.get(), s.api, &way, &s.order, &canon));
            if let Err(m) = r {
                violate!("ways", "session {} (<{}> {:?}) read by {way:?}: {m}\nbut next() alone yields\n  {}\ngrammar:\n{}", s.id, s.exp.start, s.exp.input, s.order.join("\n  "), cases[s.g].show());
            }
            if let Some(p) = p {
                p.free();
            }
            g2.free();
            start.free();
            input.free();
        }
    }
    for (s, (v, ended)) in ss.iter().zip(solo) {
        let same = v.len() >= s.order.len() && v[..s.order.len()] == s.order[..] && ended == s.ended && v.len() == s.order.len();
        check!(same, "order", "session {} (<{}> {:?}) yielded\n  {}\nended={} but alone it yields\n  {}\nended={ended}\ngrammar:\n{}", s.id, s.exp.start, s.exp.input, s.order.join("\n  "), s.ended, v.join("\n  "), cases[s.g].show());
    }
    sim(|| drop(trees));
}

/// Parses one after the other whose start term and input live in the same places each time.
fn series(c: &GCase, gr: &'static Grammar, pr: Option<&'static GrammarParser<'static>>) {
    let start = Held::new(|| Term::Nonterminal(String::new()));
    let input = Held::new(String::new);
    let names = names_of(&c.mg);
    for _ in 0..range(2, 5) {
        let api = if pr.is_some() { [1, 1, 1, 0][choose(4)] } else { 2 + choose(2) };
        let from = if api % 2 == 1 { pick(&names).clone() } else { c.mg.start().to_string() };
        let exp = draw_parse(&c.mg, &from);
        sim(|| {
            *start.get_mut() = Term::Nonterminal(exp.start.clone());
            let i = input.get_mut();
            i.clear();
            i.push_str(&exp.input);
        });
        count(P_PARSE);
        let cap = if exp.trees.is_none() { 2 } else { usize::MAX };
        let mut s = Session { id: 0, g: 0, parser: None, api, it: Some(sim(|| open(gr, pr, input.get(), start.get(), api))), start: None, input: None, exp, seen: BTreeMap::new(), order: vec![], ended: false, cap, touched: 0 };
        ev!("series: api{api} <{}> {:?}", s.exp.start, s.exp.input);
        // often only the first tree is wanted, sometimes none
        let n = [usize::MAX, usize::MAX, 1, 0][choose(4)];
        let mut none = vec![];
        advance(&mut s, std::slice::from_ref(c), n, &mut none);
        let it = s.it.take();
        sim(|| {
            drop(none);
            drop(it);
        });
    }
    start.free();
    input.free();
}

/// Ways of reading an iteration other than one `next` after the other.
#[derive(Debug, Clone)]
enum Way {
    Count(usize),
    Last(usize),
    Nth(Vec<usize>),
    SkipStep(usize, usize),
    Fold,
    TakeThenRest(usize),
    Hint,
    Zip,
    Find(usize),
}
impl Way {
    fn draw() -> Way {
        match choose(9) {
            0 => Way::Count(choose(3)),
            1 => Way::Last(choose(3)),
            2 => Way::Nth((0..range(1, 6)).map(|_| [0, 1, 2, 5][choose(4)]).collect()),
            3 => Way::SkipStep(choose(4), range(1, 3)),
            4 => Way::Fold,
            5 => Way::TakeThenRest(choose(5)),
            6 => Way::Hint,
            7 => Way::Zip,
            _ => Way::Find(choose(8)),
        }
    }
}
/// Read a fresh iteration in the given way; `want` is what `next` alone yields.
#[allow(deprecated)]
#[allow(clippy::too_many_arguments)]
fn consume(g: &'static Grammar, p: Option<&'static GrammarParser<'static>>, input: &'static str, start: &'static Term, api: usize, way: &Way, want: &[String], canon: &dyn Fn(ParseTree<'static>) -> String) -> Result<(), String> {
    match api {
        0 => read(|| p.unwrap().parse_input(input), way, want, canon),
        1 => read(|| p.unwrap().parse_input_starting_with(input, start), way, want, canon),
        2 => read(|| g.parse_input(input), way, want, canon),
        _ => read(|| g.parse_input_starting_with(input, start), way, want, canon),
    }
}
fn read<I: Iterator<Item = ParseTree<'static>>>(open: impl Fn() -> I, way: &Way, want: &[String], canon: &dyn Fn(ParseTree<'static>) -> String) -> Result<(), String> {
    let n = want.len();
    let mut it = open();
    let same = |what: &str, got: Option<String>, want: Option<&String>| if got.as_ref() == want { Ok(()) } else { Err(crate::env::harness(|| format!("{what} gives {got:?}, expected {want:?}"))) };
    let all = |what: &str, got: Vec<String>, want: &[String]| if got == want { Ok(()) } else { Err(crate::env::harness(|| format!("{what} gives\n  {}", got.join("\n  ")))) };
    match way {
        Way::Count(k) => {
            for _ in 0..*k {
                it.next();
            }
            let c = it.count();
            if c != n.saturating_sub(*k) {
                return Err(format!("count() after {k} trees gives {c}, expected {}", n.saturating_sub(*k)));
            }
            Ok(())
        }
        Way::Last(k) => {
            for _ in 0..*k {
                it.next();
            }
            same("last()", it.last().map(canon), if *k < n { want.last() } else { None })
        }
        Way::Nth(ks) => {
            let mut at = 0;
            for k in ks {
                at += k;
                same(&format!("nth({k}) up to tree {at}"), it.nth(*k).map(canon), want.get(at))?;
                at += 1;
            }
            all("the rest after nth()", it.map(canon).collect(), want.get(at..).unwrap_or(&[]))
        }
        Way::SkipStep(k, s) => {
            let w: Vec<String> = want.iter().skip(*k).step_by(*s).cloned().collect();
            all("skip and step_by", it.skip(*k).step_by(*s).map(canon).collect(), &w)
        }
        Way::Fold => all(
            "fold()",
            it.fold(vec![], |mut v, t| {
                v.push(canon(t));
                v
            }),
            want,
        ),
        Way::TakeThenRest(k) => {
            let first: Vec<String> = it.by_ref().take(*k).map(canon).collect();
            all("take()", first, &want[..(*k).min(n)])?;
            all("the rest after take()", it.map(canon).collect(), &want[(*k).min(n)..])
        }
        Way::Hint => {
            for left in (0..=n).rev() {
                let (lo, hi) = it.size_hint();
                if lo > left || hi.is_some_and(|h| h < left) {
                    return Err(format!("size_hint() is {:?} with {left} trees left", (lo, hi)));
                }
                it.next();
            }
            let (lo, _) = it.size_hint();
            if lo > 0 { Err(format!("size_hint() is {lo}.. after the end")) } else { Ok(()) }
        }
        Way::Zip => {
            let b = open();
            let (mut x, mut y) = (vec![], vec![]);
            for (s, t) in it.zip(b) {
                x.push(canon(s));
                y.push(canon(t));
            }
            all("the first of two zipped iterations", x, want)?;
            all("the second of two zipped iterations", y, want)
        }
        Way::Find(k) => {
            let mut c = 0;
            let t = it.find(|_| {
                c += 1;
                c > *k
            });
            same("find()", t.map(canon), want.get(*k))?;
            all("the rest after find()", it.map(canon).collect(), want.get(k + 1..).unwrap_or(&[]))
        }
    }
}

/// Overwrite what can be overwritten in a tree.
fn scribble(t: &mut ParseTree<'static>) {
    for n in t.rhs_iter_mut() {
        match n {
            bnf::ParseTreeNode::Nonterminal(k) => {
                scribble(k);
                if k.rhs_iter().count() % 2 == 1 {
                    *n = bnf::ParseTreeNode::Terminal("edited");
                }
            }
            bnf::ParseTreeNode::Terminal(s) => *s = "scribbled",
        }
    }
}
pub fn advance(s: &mut Session, cases: &[GCase], n: usize, trees: &mut Vec<(ParseTree<'static>, String, usize, usize)>) {
    let who = format!("session {} (g{} api{})", s.id, s.g, s.api);
    let soft = Soft::when(s.exp.trees.is_none());
    s.touched += 1;
    for _ in 0..n {
        if s.order.len() >= s.cap {
            break;
        }
        let it = s.it.as_mut().unwrap();
        match sim(|| it.next()) {
            Some(t) => {
                check!(!s.ended, "revived", "{who}: an ended iteration yielded another tree");
                count(P_TREES);
                let m = tree_of(&t, &cases[s.g].anon());
                let c = m.canon();
                let k = s.seen.entry(c.clone()).or_default();
                *k += 1;
                s.exp.judge(&who, &m, &c, *k);
                ev!("{who}: tree {c}");
                s.order.push(c.clone());
                if trees.len() < 6 && chance(1, 6) {
                    trees.push((t, c, s.g, s.id));
                } else if chance(1, 6) {
                    // the tree is the caller's: it edits it (or a copy of it) and throws it away
                    count(F_EDIT);
                    let copy = chance(1, 2);
                    let orig = sim(|| copy.then(|| t.clone()));
                    let mut t = t;
                    sim(|| scribble(&mut t));
                    if let Some(o) = orig {
                        let now = tree_of(&o, &cases[s.g].anon()).canon();
                        check!(now == c, "shared-tree", "{who}: editing a tree changed its clone: {now}\nwas {c}");
                        sim(|| drop(o));
                    }
                    sim(|| drop(t));
                }
            }
            None => {
                ev!("{who}: end after {}", s.order.len());
                if s.ended {
                    break;
                }
                s.ended = true;
                s.exp.judge_end(&who, s.order.len() as u64);
                if n > 1 {
                    let more = sim(|| it.next().is_some());
                    check!(!more, "revived", "{who}: an ended iteration yielded another tree");
                    break;
                }
            }
        }
    }
    drop(soft);
}
