//! C04 (refinement of generation), C13 (dead ends and progress), and the generation half of C05:
//! the simulator is the strategy and the callback; a reference machine follows every step.

use super::common::*;
use crate::env::{harness, sim};
use crate::r#gen::*;
use crate::model::*;
use crate::run::*;
use crate::sched;
use crate::{check, ev, violate};
use bnf::{Error, Expression, GenerationStrategy, Grammar, Production, Term};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Frame {
    name: String,
    alt: usize,
    pos: usize,
    text: String,
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Want {
    Choose,
    Verdict,
    /// a rule that cannot be expanded was entered: the call must end in an error
    Fail,
    Done,
}
/// What generation must do next, step by step.
pub struct Machine {
    pub mg: MG,
    pub ok: BTreeMap<String, usize>,
    pub stack: Vec<Frame>,
    pub want: Want,
    doomed: bool,
    refused: bool,
    result: String,
    pub steps: usize,
    after_fail: usize,
}
impl Machine {
    pub fn new(mg: &MG) -> Machine {
        let mut m = Machine {
            ok: mg.productive_first(),
            mg: mg.clone(),
            stack: vec![],
            want: Want::Done,
            doomed: false,
            refused: false,
            result: String::new(),
            steps: 0,
            after_fail: 0,
        };
        let s = mg.start().to_string();
        m.enter(s);
        m
    }
    fn enter(&mut self, name: String) {
        if !self.ok.contains_key(&name) {
            self.want = Want::Fail;
            count(P_DEADBRANCH);
            return;
        }
        self.stack.push(Frame { name, alt: 0, pos: 0, text: String::new() });
        self.want = Want::Choose;
    }
    fn rule(&self) -> &Vec<Vec<MT>> {
        &self.mg.first(&self.stack.last().unwrap().name).unwrap().1
    }
    fn run_on(&mut self) {
        loop {
            let f = self.stack.last().unwrap();
            let alt = &self.rule()[f.alt];
            if f.pos == alt.len() {
                self.want = Want::Verdict;
                return;
            }
            let t = alt[f.pos].clone();
            let f = self.stack.last_mut().unwrap();
            f.pos += 1;
            match t {
                MT::T(s) => f.text.push_str(&s),
                MT::N(n) => {
                    self.enter(n);
                    return;
                }
            }
        }
    }
    /// The library asks for a choice: check it is the one due; returns the current rule size.
    pub fn on_choose(&mut self, p: &Production, depth: usize) {
        self.steps += 1;
        if self.want == Want::Fail {
            self.after_fail += 1;
            check!(self.after_fail < 2000, "endless", "generation keeps expanding a nonterminal that can derive no finite sentence\n{}", render_grammar(&self.mg));
            return;
        }
        check!(!self.refused, "after-refusal", "the strategy was asked again after it refused to choose");
        check!(self.want == Want::Choose, "wrong-step", "strategy asked about {} at depth {depth}, but the next step due is {:?} of <{}>\n{}", p.lhs, self.want, self.stack.last().map_or("", |f| &f.name), render_grammar(&self.mg));
        let f = self.stack.last().unwrap();
        check!(matches!(&p.lhs, Term::Nonterminal(n) if *n == f.name), "wrong-rule", "strategy asked about {}, due was <{}>\n{}", p.lhs, f.name, render_grammar(&self.mg));
        check!(depth == self.stack.len() - 1, "wrong-depth", "strategy asked about <{}> with depth {depth}, nesting depth is {}\n{}", f.name, self.stack.len() - 1, render_grammar(&self.mg));
        let alts: Vec<Vec<MT>> = MG::of(&Grammar::from_parts(vec![p.clone()])).prods.remove(0).1;
        check!(alts == *self.rule(), "wrong-rule", "rule offered for <{}> is not the grammar's: {p}", f.name);
    }
    pub fn chose(&mut self, i: usize) {
        if self.want == Want::Fail {
            return;
        }
        let f = self.stack.last_mut().unwrap();
        f.alt = i;
        f.pos = 0;
        f.text.clear();
        // once an alternative with a dead name is taken the call cannot succeed unless retried above
        self.run_on();
    }
    pub fn refuse(&mut self) {
        self.refused = true;
    }
    pub fn on_verdict(&mut self, name: &str, text: &str) {
        if self.want == Want::Fail {
            self.after_fail += 1;
            return;
        }
        check!(!self.refused, "after-refusal", "the callback was asked after the strategy refused to choose");
        check!(self.want == Want::Verdict, "wrong-step", "callback offered <{name}> {text:?}, but the next step due is {:?} of <{}>\n{}", self.want, self.stack.last().map_or("", |f| &f.name), render_grammar(&self.mg));
        let f = self.stack.last().unwrap();
        check!(name == f.name, "wrong-callback", "callback offered an expansion of <{name}>, due was <{}>\n{}", f.name, render_grammar(&self.mg));
        check!(text == f.text, "wrong-callback", "callback offered <{name}> with text {text:?}, its expansion is {:?}\n{}", f.text, render_grammar(&self.mg));
    }
    pub fn verdict(&mut self, ok: bool) {
        if self.want == Want::Fail {
            return;
        }
        if !ok {
            self.want = Want::Choose;
            return;
        }
        let f = self.stack.pop().unwrap();
        match self.stack.last_mut() {
            None => {
                self.result = f.text;
                self.want = Want::Done;
            }
            Some(p) => {
                p.text.push_str(&f.text);
                self.run_on();
            }
        }
    }
    /// Choices still due if from now on everything is accepted and every rule takes its flattest way.
    fn remaining(&self) -> u64 {
        let mut sizes: BTreeMap<&str, u64> = BTreeMap::new();
        let mut names: Vec<(&String, &usize)> = self.ok.iter().collect();
        names.sort_by_key(|x| x.1);
        let of = |sizes: &BTreeMap<&str, u64>, ts: &[MT]| ts.iter().fold(0u64, |a, t| a.saturating_add(if let MT::N(n) = t { sizes.get(n.as_str()).copied().unwrap_or(1) } else { 0 }));
        for (n, _) in names {
            let Some((_, alts)) = self.mg.first(n) else { continue };
            let i = flattest_of(alts, &self.ok);
            let s = of(&sizes, &alts[i]).saturating_add(1);
            sizes.insert(n, s);
        }
        let top = self.stack.len();
        self.stack.iter().enumerate().fold(0u64, |a, (i, f)| {
            a.saturating_add(if i + 1 == top && self.want == Want::Choose {
                sizes.get(f.name.as_str()).copied().unwrap_or(1)
            } else {
                let alt = &self.mg.first(&f.name).unwrap().1[f.alt];
                of(&sizes, &alt[f.pos.min(alt.len())..])
            })
        })
    }
    /// Some dead name lies ahead in an alternative already taken.
    fn dead_ahead(&self) -> bool {
        self.stack.iter().any(|f| {
            self.mg.first(&f.name).unwrap().1[f.alt][f.pos.min(self.mg.first(&f.name).unwrap().1[f.alt].len())..]
                .iter()
                .any(|t| matches!(t, MT::N(n) if !self.ok.contains_key(n)))
        })
    }
    pub fn finish(&mut self, r: &Result<String, Error>) {
        match r {
            Ok(s) => {
                check!(!self.refused, "after-refusal", "the strategy refused, yet a sentence came back: {s:?}");
                check!(self.want != Want::Fail, "endless", "a sentence came back from a dead end: {s:?}\n{}", render_grammar(&self.mg));
                check!(self.want == Want::Done, "cut-short", "generation returned {s:?} although <{}> still awaits {:?}\n{}", self.stack.last().unwrap().name, self.want, render_grammar(&self.mg));
                check!(*s == self.result, "wrong-sentence", "generation returned {s:?}, the accepted expansions make {:?}\n{}", self.result, render_grammar(&self.mg));
            }
            Err(e) => {
                check!(matches!(e, Error::GenerateError(_)), "wrong-error", "generation failed with {e:?}");
                let due = self.refused || self.want == Want::Fail || self.doomed || self.dead_ahead();
                check!(due, "spurious-error", "generation failed although nothing refused: {e} (due: {:?} of <{}>)\n{}", self.want, self.stack.last().map_or("", |f| &f.name), render_grammar(&self.mg));
                count(P_GEN_ERR);
            }
        }
    }
}

/// Adversary behaviour for one call.
pub struct Plan {
    pub reject_num: usize,
    pub reject_run: usize,
    pub refuse_at: Option<usize>,
    pub panic_at: Option<usize>,
    pub reenter: bool,
    pub heal_after: usize,
    pub grow: usize,
    /// expansions deeper than this take the flattest way out
    pub deep: usize,
}
pub struct Sim0 {
    pub m: Machine,
    pub plan: Plan,
    n: usize,
    run_left: usize,
    healed: bool,
    healed_steps: u64,
    due: u64,
    pub panicked: bool,
    side: Option<(&'static Grammar, bool)>,
}
pub struct Injected;

impl Sim0 {
    pub fn new(mg: &MG, plan: Plan, side: Option<(&'static Grammar, bool)>) -> Rc<RefCell<Sim0>> {
        Rc::new(RefCell::new(Sim0 { m: Machine::new(mg), plan, n: 0, run_left: 0, healed: false, healed_steps: 0, due: 0, panicked: false, side }))
    }
    fn tick(&mut self) {
        self.n += 1;
        if !self.healed && self.n > self.plan.heal_after {
            self.healed = true;
            count(P_HEALED);
            self.due = self.m.remaining();
            if self.due > 60_000 {
                skip();
            }
        }
    }
    fn decide(&mut self, p: &Production, depth: usize) -> Option<usize> {
        self.tick();
        count(P_CHOOSE);
        self.m.on_choose(p, depth);
        if self.healed {
            self.healed_steps += 1;
            // bounded: nothing prolongs the derivation any more
            check!(self.healed_steps <= self.due.max(1) || self.m.want == Want::Fail, "no-progress", "after faults stopped generation did not finish within the {} choices the remaining derivation needs", self.due);
        }
        if self.plan.refuse_at == Some(self.n) {
            count(F_REFUSE);
            ev!("strategy: refuse <{}>", p.lhs);
            self.m.refuse();
            return None;
        }
        let i = if self.healed || depth > self.plan.deep || self.run_left > 0 {
            flattest(&self.m, p)
        } else if self.plan.deep > 60 {
            count(P_DEEP);
            // straight down: as few open nonterminals as possible
            self.plan.heal_after = self.n + 1;
            let nts = |i: usize| p.rhs_iter().nth(i).unwrap().terms_iter().filter(|t| matches!(t, Term::Nonterminal(_))).count();
            (0..p.len()).min_by_key(|i| (nts(*i) + 99) % 100).unwrap()
        } else if self.plan.grow > 0 && chance(self.plan.grow, 4) {
            // prefer alternatives with many nonterminals
            (0..p.len()).max_by_key(|i| p.rhs_iter().nth(*i).unwrap().terms_iter().filter(|t| matches!(t, Term::Nonterminal(_))).count()).unwrap()
        } else {
            choose(p.len())
        };
        ev!("strategy: {} depth {depth} -> alternative {i}", p.lhs);
        sig(i as u64 ^ (depth as u64) << 8);
        self.m.chose(i);
        Some(i)
    }
    fn judge(&mut self, name: &str, text: &str) -> bool {
        self.tick();
        count(P_CB);
        self.m.on_verdict(name, text);
        let ok = if self.healed {
            true
        } else if self.run_left > 0 {
            self.run_left -= 1;
            false
        } else if chance(self.plan.reject_num, 8) {
            if self.plan.reject_run > 0 {
                self.run_left = self.plan.reject_run;
                self.plan.heal_after = self.plan.heal_after.max(self.n + 4 * self.run_left);
                self.plan.reject_run = 0;
                if self.run_left > 100 {
                    count(P_LONGREJ);
                }
            }
            false
        } else {
            true
        };
        if !ok {
            count(F_REJECT);
        }
        ev!("callback: <{name}> {text:?} -> {ok}");
        sig(0x100 + ok as u64);
        self.m.verdict(ok);
        ok
    }
    fn wants_panic(&mut self) -> bool {
        if self.plan.panic_at == Some(self.n + 1) {
            self.panicked = true;
            return true;
        }
        false
    }
}
fn flattest(m: &Machine, p: &Production) -> usize {
    let Term::Nonterminal(n) = &p.lhs else { return 0 };
    let Some((_, alts)) = m.mg.first(n) else { return 0 };
    flattest_of(alts, &m.ok)
}
fn flattest_of(alts: &[Vec<MT>], ok: &BTreeMap<String, usize>) -> usize {
    let mut best = (usize::MAX, 0);
    for (i, a) in alts.iter().enumerate() {
        if let Some(h) = alt_height(a, ok)
            && h < best.0
        {
            best = (h, i);
        }
    }
    best.1
}

pub struct Adversary(pub Rc<RefCell<Sim0>>);
impl GenerationStrategy for Adversary {
    fn choose<'p>(&mut self, production: &'p Production, depth: usize) -> Option<&'p Expression> {
        let i = harness(|| {
            sched::yield_point();
            let (pan, side) = {
                let mut s = self.0.borrow_mut();
                (s.wants_panic(), if s.plan.reenter && chance(1, 6) { s.side } else { None })
            };
            if pan {
                count(F_PANIC_STRAT);
                ev!("strategy: panic at {} depth {depth}", production.lhs);
                std::panic::panic_any(Injected);
            }
            if let Some((g, walk)) = side {
                reenter(g, walk);
            }
            self.0.borrow_mut().decide(production, depth)
        })?;
        production.rhs_iter().nth(i)
    }
}
pub fn callback(s: &Rc<RefCell<Sim0>>, name: &str, text: &str) -> bool {
    harness(|| {
        sched::yield_point();
        let (pan, side) = {
            let mut s = s.borrow_mut();
            (s.wants_panic(), if s.plan.reenter && chance(1, 6) { s.side } else { None })
        };
        if pan {
            count(F_PANIC_CB);
            ev!("callback: panic at <{name}>");
            std::panic::panic_any(Injected);
        }
        if let Some((g, walk)) = side {
            reenter(g, walk);
        }
        s.borrow_mut().judge(name, text)
    })
}
/// Calls back into the library from inside a generation.
fn reenter(g: &'static Grammar, walk: bool) {
    count(F_REENTRY);
    match choose(4) {
        0 => {
            let s = sim(|| g.to_string());
            std::hint::black_box(s);
        }
        1 => {
            let r = sim(|| g.build_parser().map(|p| std::mem::size_of_val(&p)).is_ok());
            std::hint::black_box(r);
        }
        2 if walk => {
            use bnf::rand::SeedableRng;
            let mut r = bnf::rand::rngs::StdRng::from_seed(seed32(u64_()));
            let a = sim(|| g.generate_seeded(&mut r));
            check!(a.is_ok(), "reentrant", "generation inside a generation failed: {a:?}");
        }
        _ => {
            let mut f = |p: &Production, _d: usize| harness(|| Some(choose(p.len())));
            let mut l = Limit { inner: &mut f, left: 30, calls: 0, picks: vec![] };
            let r = sim(|| g.generate_seeded_with_strategy(&mut l));
            std::hint::black_box(r.is_ok());
        }
    }
}

pub fn draw_plan(reenter: bool) -> Plan {
    Plan {
        reject_num: [0, 1, 2, 4][choose(4)],
        reject_run: if chance(1, 12) { [20, 120, 700, 3000, 9000][weighted(&[4, 4, 4, 3, 1])] } else { 0 },
        refuse_at: if chance(1, 4) { Some(range(1, 30)) } else { None },
        panic_at: None,
        reenter: reenter && chance(1, 3),
        heal_after: [10, 40, 120, 300][choose(4)],
        grow: choose(4),
        deep: [60, 300, 1000][weighted(&[40, 2, 1])],
    }
}
/// One supervised generation. Returns the outcome, or None if an injected panic came through.
pub fn supervised(g: &'static Grammar, sim0: &Rc<RefCell<Sim0>>, with_cb: bool) -> Option<Result<String, Error>> {
    count(P_GEN);
    let mut adv = Adversary(sim0.clone());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        sim(|| {
            if with_cb {
                g.generate_seeded_callback_with_strategy(|a, b| callback(sim0, a, b), &mut adv)
            } else {
                g.generate_seeded_with_strategy(&mut adv)
            }
        })
    }));
    match r {
        Ok(r) => Some(r),
        Err(p) => {
            if p.is::<Injected>() {
                None
            } else {
                violate!("panic", "generation panicked: {}", panic_text(&*p))
            }
        }
    }
}

/// Without a callback every expansion is accepted silently.
pub struct Quiet(pub Rc<RefCell<Sim0>>);
impl GenerationStrategy for Quiet {
    fn choose<'p>(&mut self, production: &'p Production, depth: usize) -> Option<&'p Expression> {
        let i = harness(|| {
            let mut s = self.0.borrow_mut();
            s.accept_all();
            s.decide(production, depth)
        })?;
        production.rhs_iter().nth(i)
    }
}
impl Sim0 {
    fn accept_all(&mut self) {
        while self.m.want == Want::Verdict {
            self.m.verdict(true);
        }
    }
}

fn one_call(c: &GCase, model: &MG, g: &'static Grammar, side: Option<(&'static Grammar, bool)>, plan: Plan) {
    let s = Sim0::new(model, plan, side);
    let with_cb = chance(4, 5);
    let expect_fail_now = s.borrow().m.want == Want::Fail;
    if expect_fail_now {
        count(P_UNPROD);
    }
    let r = if with_cb {
        supervised(g, &s, true).unwrap()
    } else {
        count(P_GEN);
        let mut q = Quiet(s.clone());
        let r = must("generation", || g.generate_seeded_with_strategy(&mut q));
        s.borrow_mut().accept_all();
        r
    };
    ev!("result {r:?}");
    let mut s = s.borrow_mut();
    if !c.mg.productive_all().contains(c.mg.start()) {
        check!(s.m.steps == 0, "asked-dead-start", "the strategy was asked although no sentence can be derived from the start rule\n{}", c.show());
        check!(r.is_err(), "endless", "a sentence came back although none exists: {r:?}\n{}", c.show());
    }
    s.m.finish(&r);
    if let Ok(t) = &r {
        // independent of the machine: the sentence is in the language (small cases)
        if t.len() <= 60 {
            let first = MG { prods: first_only(model) };
            check!(Deriv::new(&first, t).member(first.start()), "not-derivable", "generated {t:?} is not derivable\n{}", c.show());
        }
    }
}
fn first_only(mg: &MG) -> Vec<(String, Vec<Vec<MT>>)> {
    let mut seen = std::collections::BTreeSet::new();
    mg.prods.iter().filter(|p| seen.insert(p.0.clone())).cloned().collect()
}

fn scenario(dead: bool) {
    crate::env::set_env(draw_env());
    let c = gen_case(dead);
    note_grammar(&c);
    let how = c.how();
    let h = Held::new(|| c.build(how));
    // anonymous names are the library's own: take them from the built grammar
    let model = sim_free_model(&c, h.get());
    ev!("grammar by {how:?}:\n{}", render_grammar(&model));
    let walk = !dead && mean_size(&model).is_some_and(|m| m < 40.0);
    nontrivial();
    let calls = range(1, 3);
    for _ in 0..calls {
        let plan = draw_plan(true);
        one_call(&GCase { mg: model.clone(), user: c.user.clone(), bnf: None, abnf: None }, &model, h.get(), Some((h.get(), walk)), plan);
    }
    h.free();
}
/// The reference rules: our own lowering when no name was generated, else the built grammar's rules.
pub fn sim_free_model(c: &GCase, g: &Grammar) -> MG {
    if c.mg.prods.iter().any(|p| p.0.starts_with('#')) { MG::of(g) } else { c.mg.clone() }
}
pub fn run_c04() {
    scenario(false)
}
/// Generation from a grammar of hundreds of rules.
fn many() {
    let e = draw_env();
    crate::env::set_env(crate::env::EnvCfg { hash_mode: 0, ..e });
    let c = many_rules();
    note_grammar(&c);
    let h = Held::new(|| c.build(How::Parts));
    ev!("{} rules, starting\n{}", c.mg.prods.len(), render_prod(&c.mg.prods[0].0, &c.mg.prods[0].1));
    nontrivial();
    for _ in 0..range(1, 2) {
        let plan = Plan { reject_num: 0, reject_run: 0, deep: 1500, ..draw_plan(false) };
        one_call(&c, &c.mg, h.get(), None, plan);
    }
    h.free();
}
pub fn run_c13() {
    if chance(1, 400) && !repeated() {
        return many();
    }
    if chance(1, 3) {
        scenario(false)
    } else {
        scenario(true)
    }
}
