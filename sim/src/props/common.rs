//! Shared workload pieces: held objects, environments, parse expectations and operation scripts.

use crate::env::{self, EnvCfg, harness, sim};
use crate::r#gen::*;
use crate::model::*;
use crate::run::*;
use crate::sched;
use crate::{check, ev, violate};
use bnf::rand::SeedableRng;
use bnf::rand::rngs::StdRng;
use bnf::{CoverageGuided, DepthBounded, Error, Expression, GenerationStrategy, Grammar, GrammarParser, ParseTree, Production, RandomWalk, Term, Weighted};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

// ------------------------------------------------------------------ held objects
/// A library object on the simulated heap whose lifetime the scenario manages itself.
pub struct Held<T: 'static>(*mut T);
/// Everything held and not released, so that a repeated scenario can be cleared away.
static HELD: std::sync::Mutex<Vec<(usize, unsafe fn(usize))>> = std::sync::Mutex::new(vec![]);
unsafe fn release<T>(p: usize) {
    drop(unsafe { Box::from_raw(p as *mut T) })
}
fn forget_held(p: usize) {
    let mut h = HELD.lock().unwrap();
    if let Some(i) = h.iter().rposition(|x| x.0 == p) {
        h.remove(i);
    }
}
pub fn release_all() {
    let mut h = std::mem::take(&mut *HELD.lock().unwrap());
    while let Some((p, f)) = h.pop() {
        sim(|| unsafe { f(p) });
    }
}
impl<T> Held<T> {
    pub fn new(f: impl FnOnce() -> T) -> Held<T> {
        let p = sim(|| Box::into_raw(Box::new(f())));
        harness(|| HELD.lock().unwrap().push((p as usize, release::<T>)));
        Held(p)
    }
    pub fn get(&self) -> &'static T {
        unsafe { &*self.0 }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get_mut(&self) -> &'static mut T {
        unsafe { &mut *self.0 }
    }
    pub fn free(self) {
        harness(|| forget_held(self.0 as usize));
        sim(|| drop(unsafe { Box::from_raw(self.0) }));
    }
    pub fn take(self) -> T {
        harness(|| forget_held(self.0 as usize));
        sim(|| *unsafe { Box::from_raw(self.0) })
    }
}
pub type Iter = Box<dyn Iterator<Item = ParseTree<'static>>>;

pub struct Wild<T>(pub T);
unsafe impl<T> Send for Wild<T> {}
impl<T> Wild<T> {
    pub fn take(self) -> T {
        self.0
    }
}

// ------------------------------------------------------------------ environments
pub fn draw_env() -> EnvCfg {
    EnvCfg {
        hash_seed: u64_(),
        hash_mode: weighted(&[6, 2, 1, 2]) as u8,
        entropy_seed: u64_(),
        heap_policy: choose(4) as u8,
        heap_pad: if chance(1, 3) { range(1, 9) as u8 } else { 0 },
        heap_seed: u64_(),
        clock_base_s: 1_000_000_000 + choose(1 << 30) as u64,
        clock_jump: weighted(&[4, 2, 2, 1, 1]) as u8,
    }
}
/// Run on a new OS thread (fresh thread-locals) in the given environment; panics are violations.
pub fn fresh<R: 'static>(e: EnvCfg, f: impl FnOnce() -> R) -> R {
    let f = Wild(Box::new(f) as Box<dyn FnOnce() -> R>);
    let f: Wild<Box<dyn FnOnce() -> R + 'static>> = unsafe { std::mem::transmute(f) };
    count(F_ENV);
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let f = f.take();
            env::set_env(e);
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| env::deeper(e.heap_seed % 7, f))) {
                Ok(r) => Wild(r),
                Err(p) => violate_panic(&*p),
            }
        })
        .expect("spawn");
    h.join().ok().expect("joined").take()
}
/// Run a library call that must not panic.
pub fn must<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sim(f))) {
        Ok(r) => r,
        Err(p) => violate!("panic", "{what} panicked: {}", panic_text(&*p)),
    }
}

// ------------------------------------------------------------------ expectations for one parse
#[derive(Clone)]
pub struct PExp {
    pub mg: MG,
    pub start: String,
    pub input: String,
    /// canonical tree -> how many derivations look like it; None = endless (cyclic) case
    pub trees: Option<BTreeMap<String, u64>>,
    pub total: u64,
}
impl PExp {
    /// None when the parse would be too big for a simulated run.
    pub fn new(mg: &MG, start: &str, input: &str) -> Option<PExp> {
        PExp::capped(mg, start, input, TREE_CAP, WORK_CAP)
    }
    pub fn capped(mg: &MG, start: &str, input: &str, max_trees: u64, max_work: u64) -> Option<PExp> {
        if input.len() > MAX_INPUT {
            return None;
        }
        let base = PExp { mg: mg.clone(), start: start.into(), input: input.into(), trees: None, total: 0 };
        if mg.cyclic() {
            if input.len() > 8 || !Deriv::new(mg, input).member(start) {
                return None;
            }
            return Some(base);
        }
        let mut d = Deriv::new(mg, input);
        if d.count(start) > max_trees || d.work() > max_work {
            return None;
        }
        let ts = d.trees(start);
        let mut m: BTreeMap<String, u64> = BTreeMap::new();
        for t in &ts {
            *m.entry(t.canon()).or_default() += 1;
        }
        Some(PExp { total: ts.len() as u64, trees: Some(m), ..base })
    }
    /// The derivations (all distinct) of one input, known by construction.
    pub fn known(mg: &MG, trees: &[Tree]) -> PExp {
        let mut input = String::new();
        trees[0].text(&mut input);
        let m: BTreeMap<String, u64> = trees.iter().map(|t| (t.canon(), 1)).collect();
        PExp { mg: mg.clone(), start: mg.start().into(), input, trees: Some(m), total: trees.len() as u64 }
    }
    /// Judge the k-th yielded tree given the counts so far (including this one).
    pub fn judge(&self, who: &str, t: &Tree, canon: &str, seen: u64) {
        match &self.trees {
            Some(m) => match m.get(canon) {
                None => violate!("false-tree", "{who}: yielded a tree that is not a derivation of {:?} from <{}>: {canon}\ngrammar:\n{}", self.input, self.start, render_grammar(&self.mg)),
                Some(n) if seen > *n => violate!("repeated-tree", "{who}: yielded the same derivation of {:?} {seen} times (expected {n}): {canon}\ngrammar:\n{}", self.input, render_grammar(&self.mg)),
                _ => {}
            },
            None => {
                let mut s = String::new();
                t.text(&mut s);
                let root = matches!(t, Tree::Node(n, _) if *n == self.start || (n == "#" && self.start.starts_with('#')));
                let m = if self.start.starts_with('#') { u64::MAX } else { multiplicity(&self.mg, t) };
                if s != self.input || !root || m == 0 {
                    violate!("false-tree", "{who}: yielded a tree that is not a derivation of {:?} from <{}>: {canon}\ngrammar:\n{}", self.input, self.start, render_grammar(&self.mg));
                }
                if seen > m {
                    violate!("repeated-tree", "{who}: yielded the same derivation of {:?} {seen} times (expected {m}): {canon}\ngrammar:\n{}", self.input, render_grammar(&self.mg));
                }
            }
        }
    }
    pub fn judge_end(&self, who: &str, yielded: u64) {
        match &self.trees {
            Some(_) if yielded != self.total => violate!(
                "missing-trees",
                "{who}: ended after {yielded} of {} derivations of {:?} from <{}>\ngrammar:\n{}",
                self.total,
                self.input,
                self.start,
                render_grammar(&self.mg)
            ),
            None if yielded == 0 => violate!(
                "missing-trees",
                "{who}: found no derivation of {:?} from <{}>\ngrammar:\n{}",
                self.input,
                self.start,
                render_grammar(&self.mg)
            ),
            _ => {}
        }
    }
}
/// Draw an input for `start` that is small enough to judge.
pub fn draw_parse(mg: &MG, start: &str) -> PExp {
    for k in 0..5 {
        let i = input(mg, start, [14, 8, 5, 3, 1][k]);
        if let Some(e) = PExp::new(mg, start, &i) {
            note_parse(&e);
            return e;
        }
    }
    match PExp::new(mg, start, "") {
        Some(e) => e,
        None => skip(),
    }
}
/// Like `draw_parse`, but now and then the start is a name the grammar does not have: no derivations,
/// however well the grammar's own start derives the input.
pub fn draw_parse_from(mg: &MG, start: &str, explicit: bool) -> PExp {
    if explicit && chance(1, 20) {
        let e = draw_parse(mg, mg.start());
        let mut lost: Vec<String> = ["nowhere", "", "__anon0", "S", "s "].iter().map(|x| x.to_string()).collect();
        lost.push(format!("{}2", mg.start()));
        lost.push(mg.start().to_uppercase());
        let lost = pick(&lost).clone();
        if !mg.prods.iter().any(|p| p.0 == lost || p.0.starts_with('#')) {
            return PExp { start: lost, trees: Some(BTreeMap::new()), total: 0, ..e };
        }
        return draw_parse(mg, start);
    }
    draw_parse(mg, start)
}
pub fn note_parse(e: &PExp) {
    if e.total > 1 {
        count(P_AMBIG);
    }
    if e.trees.is_some() && e.total == 0 {
        count(P_NOPARSE);
    }
    if e.trees.is_none() {
        count(P_CYCLIC);
    }
}
pub fn note_grammar(c: &GCase) {
    if c.mg.nullable().len() > 0 {
        count(P_NULLABLE);
    }
    if c.mg.left_recursive() {
        count(P_LEFTREC);
    }
    if c.mg.prods.iter().any(|p| p.0.starts_with('#')) {
        count(P_EXTENDED);
    }
    if !c.mg.undefined().is_empty() {
        count(P_UNDEF);
        if c.mg.undefined().len() > 1 {
            count(P_MULTIUNDEF);
        }
    }
    if c.mg.names().len() < c.mg.prods.len() {
        count(P_DUPLHS);
    }
    case_sig(&c.show());
}
pub fn names_of(mg: &MG) -> Vec<String> {
    mg.names().iter().filter(|n| !n.starts_with('#')).map(|s| s.to_string()).collect()
}

// ------------------------------------------------------------------ callbacks and strategies
/// What the caller's code does during one generation: rejects on a fixed pattern (never for
/// ever), and at drawn entries calls back into the library or stalls.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Calls {
    pub every: u32,
    /// entry (1-based, over choices and offers) at which it calls the library again; 0 = never
    pub reenter: u32,
    pub what: u32,
    /// entry at which the thread stalls until the others are done; 0 = never
    pub stall: u32,
}
impl Calls {
    pub fn draw() -> Calls {
        let every = choose(6) as u32;
        if !chance(1, 5) {
            return Calls { every, ..Calls::default() };
        }
        let at = |p| if chance(1, p) { range(1, 6) as u32 } else { 0 };
        Calls { every, reenter: at(2), what: choose(6) as u32, stall: at(2) }
    }
    /// Without unlimited random walks when those might not end.
    pub fn bounded(self, walk: bool) -> Calls {
        Calls { what: if walk || self.what > 1 { self.what } else { self.what + 2 }, ..self }
    }
    pub fn callback(&self) -> bool {
        self.every != 0 || self.reenter != 0 || self.stall != 0
    }
}
pub struct Verdicts<'g> {
    n: Cell<u32>,
    entries: Cell<u32>,
    c: Calls,
    g: &'g Grammar,
    log: RefCell<String>,
}
impl<'g> Verdicts<'g> {
    pub fn new(c: Calls, g: &'g Grammar) -> Self {
        Verdicts { n: Cell::new(0), entries: Cell::new(0), c, g, log: RefCell::default() }
    }
    /// An entry into caller code (simulated context).
    pub fn enter(&self) {
        sched::yield_point();
        let k = self.entries.get() + 1;
        self.entries.set(k);
        if k == self.c.stall {
            sched::stall();
        }
        if k == self.c.reenter {
            harness(|| count(F_REENTRY));
            let g = self.g;
            let r = match self.c.what {
                0 => outcome(g.generate_seeded(&mut StdRng::from_seed([3; 32]))),
                1 => outcome(bnfcalls::seeded_callback(g, &mut StdRng::from_seed([4; 32]), &|_, _| true)),
                2 => format!("{:?}", g.validate()),
                3 => g.to_string(),
                4 => {
                    let mut s = Weighted::from_seed(1, 3, [5; 32]);
                    outcome(bnfcalls::by_strategy(g, &mut Limit { inner: &mut |p, d| { let e = s.choose(p, d)?; index_in(p, e) }, left: 300, calls: 0, picks: vec![] }))
                }
                _ => format!("{:?}", g.clone()),
            };
            harness(|| *self.log.borrow_mut() = r.to_string());
        }
    }
    pub fn ask(&self, name: &str, text: &str) -> bool {
        self.enter();
        let k = self.n.get() + 1;
        self.n.set(k);
        if self.c.every == 0 || k > 40 {
            return true;
        }
        !(k + name.len() as u32 + text.len() as u32).is_multiple_of(self.c.every)
    }
    pub fn log(&self) -> String {
        self.log.borrow().clone()
    }
}
/// A sink that does what `Calls` says at its writes (a caller's writer may be slow, or use the
/// library itself).
pub struct Tap<'a, 'g> {
    pub v: &'a Verdicts<'g>,
    pub got: String,
}
impl std::fmt::Write for Tap<'_, '_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.v.enter();
        harness(|| self.got.push_str(s));
        Ok(())
    }
}
/// Format into a `Tap` (simulated context).
pub fn tapped(v: &Verdicts, a: std::fmt::Arguments) -> String {
    let mut t = Tap { v, got: String::new() };
    let r = std::fmt::Write::write_fmt(&mut t, a);
    harness(|| {
        check!(r.is_ok(), "spurious-error", "formatting into a sink that never fails failed");
        std::mem::take(&mut t.got)
    })
}
/// Any strategy, but giving up (None) after so many choices; an optional tap sees every choice.
pub struct Limit<'a> {
    pub inner: &'a mut dyn FnMut(&Production, usize) -> Option<usize>,
    pub left: usize,
    pub calls: usize,
    pub picks: Vec<u32>,
}
pub fn index_in(p: &Production, e: &Expression) -> Option<usize> {
    p.rhs_iter().position(|x| std::ptr::eq(x, e))
}
impl GenerationStrategy for Limit<'_> {
    fn choose<'p>(&mut self, production: &'p Production, depth: usize) -> Option<&'p Expression> {
        sched::yield_point();
        self.calls += 1;
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let i = (self.inner)(production, depth)?;
        harness(|| self.picks.push(i as u32));
        production.rhs_iter().nth(i)
    }
}
/// Built-in strategies as one type.
pub enum Strat {
    Walk(RandomWalk),
    Depth(DepthBounded),
    Cover(CoverageGuided),
    Weight(Weighted),
}
impl Strat {
    pub fn draw_kind() -> (usize, u64, u32, u32) {
        (choose(7), u64_(), choose(8) as u32, choose(5) as u32)
    }
    pub fn make(k: (usize, u64, u32, u32)) -> Strat {
        let s = edge_seed(k.1);
        match k.0 {
            0 => Strat::Walk(RandomWalk::from_seed(s)),
            1 => Strat::Depth(DepthBounded::from_seed(k.2 as usize, s)),
            2 => Strat::Cover(CoverageGuided::from_seed(s)),
            3 => Strat::Weight(Weighted::from_seed(k.2, k.3, s)),
            4 => Strat::Cover(CoverageGuided::new()),
            5 => Strat::Weight(Weighted::new(k.2, k.3)),
            _ => {
                if k.2 & 1 == 0 {
                    Strat::Cover(CoverageGuided::default())
                } else {
                    Strat::Weight(Weighted::default())
                }
            }
        }
    }
    pub fn pick(&mut self, p: &Production, depth: usize) -> Option<usize> {
        let e = match self {
            Strat::Walk(s) => s.choose(p, depth),
            Strat::Depth(s) => s.choose(p, depth),
            Strat::Cover(s) => s.choose(p, depth),
            Strat::Weight(s) => s.choose(p, depth),
        }?;
        match index_in(p, e) {
            Some(i) => Some(i),
            None => harness(|| violate!("foreign-choice", "a built-in strategy returned an alternative that is not one of the rule's")),
        }
    }
}
/// A seed for a caller's RNG or strategy; one in twelve is a special pattern.
pub fn edge_seed(s: u64) -> [u8; 32] {
    if s % 12 != 0 {
        return seed32(s);
    }
    count(P_EDGESEED);
    let k = s / 12;
    let mut o = [0u8; 32];
    match k % 6 {
        0 => {}
        1 => o = [0xff; 32],
        2 => o[0] = 1,
        3 => o[31] = 1 + (k / 6 % 255) as u8,
        4 => o = [(k / 6) as u8; 32],
        _ => o[..8].copy_from_slice(&(k / 6).to_le_bytes()),
    }
    o
}
pub fn seed32(s: u64) -> [u8; 32] {
    let mut r = env::Rng(s);
    let mut o = [0u8; 32];
    for c in o.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_le_bytes());
    }
    o
}
pub fn outcome(r: Result<String, Error>) -> String {
    match r {
        Ok(s) => format!("ok {s:?}"),
        Err(e) => format!("err {e:?} / {e}"),
    }
}

// ------------------------------------------------------------------ operation scripts
#[derive(Clone)]
pub enum Op {
    Parse { g: usize, exp: PExp, api: usize, take: usize, show: bool, calls: Calls },
    Validate { g: usize },
    Build { g: usize },
    Show { g: usize, calls: Calls },
    Json { g: usize },
    Text { text: String, abnf: bool },
    PieceText { text: String, kind: usize },
    GenSeeded { g: usize, seed: u64, n: usize, calls: Calls },
    GenStrat { g: usize, kind: (usize, u64, u32, u32), n: usize, calls: Calls },
    CloneEq { g: usize },
    Rebuild { g: usize, how: How },
    /// one grammar in one place through several states
    Slot { states: Vec<SlotState> },
    /// texts of one length read from one buffer in turn, each with the grammar it means
    Page { texts: Vec<(String, MG)>, how: usize },
}
/// Grammar texts of equal length that differ only in letters.
fn draw_page() -> Op {
    let how = choose(3);
    let names = range(2, 5);
    let word = |w: usize| -> String { (0..w).map(|_| (b'a' + choose(6) as u8) as char).collect() };
    let mut mg = MG { prods: vec![] };
    for i in 0..names {
        let alts = (0..range(1, 4))
            .map(|_| (0..range(1, 4)).map(|_| if chance(1, 3) { MT::N(format!("r{}", choose(names))) } else { MT::T(word(range(1, 6))) }).collect())
            .collect();
        mg.prods.push((format!("r{i}"), alts));
    }
    let mut texts = vec![];
    for _ in 0..range(2, 4) {
        let text = if how == 1 {
            let term = |t: &MT| match t {
                MT::T(s) => format!("\"{s}\""),
                MT::N(s) => s.clone(),
            };
            mg.prods.iter().map(|(l, a)| format!("{l} = {}\n", a.iter().map(|e| e.iter().map(term).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" / "))).collect()
        } else {
            render_grammar(&mg)
        };
        texts.push((text, mg.clone()));
        for _ in 0..range(1, 3) {
            let p = choose(names);
            let a = choose(mg.prods[p].1.len());
            let t = choose(mg.prods[p].1[a].len());
            match &mut mg.prods[p].1[a][t] {
                MT::T(s) => *s = word(s.len()),
                MT::N(s) => *s = format!("r{}", choose(names)),
            }
        }
    }
    Op::Page { texts, how }
}
fn read_page(texts: &[(String, MG)], how: usize, out: &mut String) {
    let page = Held::new(|| String::with_capacity(4096));
    for (text, mg) in texts {
        let r = sim(|| {
            let b = page.get_mut();
            b.clear();
            b.push_str(text);
            match how {
                0 => bnfcalls::read_bnf(b),
                1 => bnfcalls::read_abnf(b),
                _ => b.parse::<Grammar>(),
            }
        });
        match r {
            Ok(g) => {
                let is = MG::of(&g);
                check!(is == *mg, "stale", "reading\n{text}\ngives\n{}", render_grammar(&is));
                let s = sim(|| {
                    let s = g.to_string();
                    drop(g);
                    s
                });
                out.push_str(&s);
            }
            Err(e) => violate!("stale", "reading\n{text}\nfails: {e}"),
        }
    }
    page.free();
}
#[derive(Clone)]
pub struct SlotState {
    pub mg: MG,
    /// edit term by term where the shape allows it (else the whole grammar is replaced)
    pub edit: bool,
    /// what is done, in order: 0 validate, 1 build, 2 display, 3 parse, 4 generate
    pub acts: Vec<usize>,
    pub exp: Option<PExp>,
    pub kind: (usize, u64, u32, u32),
}
fn same_shape(a: &MG, b: &MG) -> bool {
    let f = |g: &MG| -> Vec<Vec<usize>> { g.prods.iter().map(|p| p.1.iter().map(|e| e.len()).collect()).collect() };
    f(a) == f(b) && a.prods.iter().zip(&b.prods).all(|(x, y)| x.0 == y.0)
}
impl SlotState {
    fn draw(mg: MG, edit: bool) -> SlotState {
        let exp = if mg.prods.is_empty() {
            None
        } else {
            let s = mg.start().to_string();
            (0..3).find_map(|k| PExp::new(&mg, &s, &input(&mg, &s, [8, 4, 1][k])))
        };
        SlotState { exp, edit, acts: (0..range(1, 4)).map(|_| choose(5)).collect(), kind: Strat::draw_kind(), mg }
    }
    fn series(first: &MG) -> Vec<SlotState> {
        let mut mg = first.clone();
        let mut v = vec![SlotState::draw(mg.clone(), false)];
        let ls = letters(&mg);
        for _ in 0..range(1, 5) {
            let before = mg.clone();
            for _ in 0..range(1, 2) {
                if mg.prods.is_empty() {
                    break;
                }
                let i = choose(mg.prods.len());
                let names: Vec<String> = mg.prods.iter().map(|p| p.0.clone()).collect();
                let nalt = mg.prods[i].1.len();
                if nalt == 0 {
                    continue;
                }
                let j = choose(nalt);
                let nt = mg.prods[i].1[j].len();
                match choose(7) {
                    0 if nt > 0 => mg.prods[i].1[j][choose(nt)] = MT::T(pick(&ls).clone()),
                    1 if nt > 0 => mg.prods[i].1[j][choose(nt)] = MT::N(pick(&names).clone()),
                    2 if nt > 0 => mg.prods[i].1[j][choose(nt)] = MT::N(["undef0", "undef1"][choose(2)].into()),
                    3 if nalt > 1 => mg.prods[i].1.swap(0, j),
                    4 => mg.prods[i].1.push(vec![MT::T(pick(&ls).clone())]),
                    5 if nalt > 1 => {
                        mg.prods[i].1.remove(j);
                    }
                    6 => mg = v[choose(v.len())].mg.clone(),
                    _ => mg.prods[i].1[j] = vec![MT::T(pick(&ls).clone())],
                }
            }
            let edit = same_shape(&before, &mg) && chance(3, 4);
            v.push(SlotState::draw(mg.clone(), edit));
        }
        v
    }
}
impl Op {
    pub fn name(&self) -> String {
        match self {
            Op::Parse { g, exp, api, take, .. } => format!("parse g{g} {:?} from <{}> api{api} take{take}", exp.input, exp.start),
            Op::Validate { g } => format!("validate g{g}"),
            Op::Build { g } => format!("build_parser g{g}"),
            Op::Show { g, .. } => format!("display g{g}"),
            Op::Json { g } => format!("json g{g}"),
            Op::Text { text, abnf } => format!("read text abnf={abnf} {text:?}"),
            Op::PieceText { text, kind } => format!("read piece {kind} {text:?}"),
            Op::GenSeeded { g, seed, n, calls } => format!("generate_seeded g{g} seed={seed} n={n} {calls:?}"),
            Op::GenStrat { g, kind, n, calls } => format!("generate g{g} strategy={kind:?} n={n} {calls:?}"),
            Op::CloneEq { g } => format!("clone g{g}"),
            Op::Rebuild { g, how } => format!("rebuild g{g} {how:?}"),
            Op::Slot { states } => {
                let mut s = String::from("one place, in turn:");
                for x in states {
                    s.push_str(&format!("\n [{}] acts {:?} input {:?}\n{}", if x.edit { "edited" } else { "replaced" }, x.acts, x.exp.as_ref().map(|e| e.input.clone()), render_grammar(&x.mg)));
                }
                s
            }
            Op::Page { texts, how } => format!("one page ({how}), in turn:\n{}", texts.iter().map(|t| t.0.as_str()).collect::<Vec<_>>().join("\n")),
        }
    }
}

/// Draw one operation valid for the given grammar cases. `walks[g]` = random walk on g is short.
pub fn draw_op(cases: &[GCase], walks: &[bool]) -> Op {
    draw_op_of(cases, walks, None)
}
/// Kinds of operations that `draw_op_of` can be narrowed to.
pub const OP_KINDS: usize = 13;
pub fn draw_op_of(cases: &[GCase], walks: &[bool], only: Option<usize>) -> Op {
    let g = choose(cases.len());
    let c = &cases[g];
    let defined = c.mg.undefined().is_empty() && !c.mg.prods.is_empty();
    let has = !c.mg.prods.is_empty();
    let walk = if walks[g] { 3 } else { 0 };
    let mut weights = [if has { 6 } else { 0 }, 1, 2, 1, 1, 1, 1, walk, walk, 1, 1, 2, 1];
    if let Some(k) = only
        && weights[k] > 0
    {
        weights = [0; OP_KINDS];
        weights[k] = 1;
    }
    match weighted(&weights) {
        0 => {
            let names = names_of(&c.mg);
            let api = if defined { choose(4) } else { 2 + choose(2) };
            let start = if api % 2 == 1 { pick(&names).clone() } else { c.mg.start().to_string() };
            let exp = draw_parse_from(&c.mg, &start, api % 2 == 1);
            let take = if exp.trees.is_none() { range(1, 3) } else if chance(1, 4) { range(1, 3) } else { usize::MAX };
            Op::Parse { g, exp, api, take, show: only.is_some() || chance(1, 3), calls: Calls::draw().bounded(walks[g]) }
        }
        1 => Op::Validate { g },
        2 => Op::Build { g },
        3 => Op::Show { g, calls: Calls::draw().bounded(walks[g]) },
        4 => Op::Json { g },
        5 => {
            let abnf = c.abnf.is_some() && chance(1, 2);
            let base = if abnf { c.abnf.clone() } else { c.bnf.clone() };
            let mut text = base.unwrap_or_else(|| "<a> ::= 'x' | <b\n".into());
            if chance(1, 2) && !text.is_empty() {
                // damage it: the verdict (and message) must still be a function of the text
                let cs: Vec<char> = text.chars().collect();
                let i = choose(cs.len());
                text = match choose(3) {
                    0 => cs[..i].iter().collect(),
                    1 => cs.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, c)| *c).collect(),
                    _ => cs.iter().enumerate().flat_map(|(k, c)| if k == i { vec!['|', *c] } else { vec![*c] }).collect(),
                };
            }
            Op::Text { text, abnf }
        }
        6 => {
            let kind = choose(3);
            let texts: &[&str] = match kind {
                0 => &["'a'", "<x>", "<x", "\"q\" ", "", "'it", "'a' 'b'"],
                1 => &["'a' <b>", "'a' | <b>", "<a> ::= 'x'", "  ", "'x' ; c"],
                _ => &["<a> ::= 'x' | <b>", "<a> ::= ", "<a> = 'x'", "<a> ::= 'x' <b> ::= 'y'", "<p> ::= '日' | \"it's\""],
            };
            Op::PieceText { text: pick(texts).to_string(), kind }
        }
        7 => Op::GenSeeded { g, seed: u64_(), n: range(1, 3), calls: Calls::draw() },
        8 => Op::GenStrat { g, kind: Strat::draw_kind(), n: range(1, 3), calls: Calls::draw() },
        9 => Op::CloneEq { g },
        10 => Op::Rebuild { g, how: c.how() },
        11 => Op::Slot { states: SlotState::series(&c.mg) },
        _ => draw_page(),
    }
}

fn name_in_error(e: &Error) -> Option<String> {
    let s = format!("{e}");
    let i = s.find('<')?;
    let j = s.rfind('>')?;
    Some(s[i + 1..j].to_string())
}
pub fn judge_validation(mg: &MG, what: &str, r: &Result<(), Error>) {
    let undef = mg.undefined();
    match r {
        Ok(()) => check!(undef.is_empty() && !mg.prods.is_empty(), "validation", "{what} accepted a grammar with undefined {undef:?}:\n{}", render_grammar(mg)),
        Err(e) => {
            check!(matches!(e, Error::ValidationError(_)), "validation", "{what} failed with {e:?}");
            if mg.prods.is_empty() {
                return;
            }
            check!(!undef.is_empty(), "validation", "{what} refused a grammar with nothing undefined: {e}\n{}", render_grammar(mg));
            if let Some(n) = name_in_error(e) {
                check!(undef.contains(n.as_str()), "validation", "{what} names <{n}>, which is not undefined: {e}\n{}", render_grammar(mg));
            }
        }
    }
}

/// Execute one operation (harness context); the returned text is its whole observable result.
pub fn exec(op: &Op, cases: &[GCase], gs: &[&'static Grammar]) -> String {
    let mut out = String::new();
    exec_into(op, cases, gs, &mut out);
    out
}
fn exec_into(op: &Op, cases: &[GCase], gs: &[&'static Grammar], out: &mut String) {
    use std::fmt::Write;
    count(P_OPS);
    match op {
        Op::Parse { g, exp, api, take, show, calls } => {
            let calls = if cases[*g].mg.prods.len() > 40 { Calls::default() } else { *calls };
            run_parse(&op.name(), gs[*g], &cases[*g], exp, *api, *take, show.then_some(calls), out);
        }
        Op::Validate { g } => {
            let r = sim(|| gs[*g].validate());
            judge_validation(&cases[*g].mg, "validate", &r);
            let _ = write!(out, "{r:?} {}", r.as_ref().err().map(|e| e.to_string()).unwrap_or_default());
        }
        Op::Build { g } => {
            let r = sim(|| gs[*g].build_parser().map(|_| ()));
            judge_validation(&cases[*g].mg, "build_parser", &r);
            let r2 = sim(|| GrammarParser::new(gs[*g]).map(|_| ()));
            let _ = write!(out, "{r:?} {} {r2:?}", r.as_ref().err().map(|e| e.to_string()).unwrap_or_default());
        }
        Op::Show { g, calls } => {
            let v = Verdicts::new(*calls, gs[*g]);
            let s = sim(|| tapped(&v, format_args!("{}\n{:?}", gs[*g], gs[*g])));
            out.push_str(&s);
            out.push_str(&v.log());
        }
        Op::Json { g } => {
            let s = sim(|| bnfcalls::to_json(gs[*g]).map_err(|e| e.to_string()));
            match s {
                Ok(s) => {
                    let back = sim(|| bnfcalls::from_json(&s).map_err(|e| e.to_string()));
                    match back {
                        Ok(b) => check!(sim(|| b == *gs[*g]), "json", "grammar read back differs: {s}"),
                        Err(e) => violate!("json", "own JSON refused: {e}: {s}"),
                    }
                    out.push_str(&s);
                }
                Err(e) => violate!("json", "cannot serialise: {e}"),
            }
        }
        Op::Text { text, abnf } => {
            let r = must("reading grammar text", || {
                if *abnf { bnfcalls::read_abnf(text) } else { text.parse::<Grammar>() }
            });
            let s = sim(|| match &r {
                Ok(g) => format!("ok {g:?}"),
                Err(e) => format!("err {e:?} / {e}"),
            });
            out.push_str(&s);
        }
        Op::PieceText { text, kind } => {
            let s = must("reading text", || match kind {
                0 => format!("{:?}", text.parse::<Term>()),
                1 => format!("{:?}", text.parse::<Expression>()),
                _ => format!("{:?}", text.parse::<Production>()),
            });
            out.push_str(&s);
        }
        Op::GenSeeded { g, seed, n, calls } => {
            let mut rng = sim(|| StdRng::from_seed(edge_seed(*seed)));
            let v = Verdicts::new(*calls, gs[*g]);
            for _ in 0..*n {
                count(P_GEN);
                let r = sim(|| if calls.callback() { bnfcalls::seeded_callback(gs[*g], &mut rng, &|a, b| v.ask(a, b)) } else { gs[*g].generate_seeded(&mut rng) });
                let _ = writeln!(out, "{}", outcome(r));
            }
            out.push_str(&v.log());
        }
        Op::GenStrat { g, kind, n, calls } => {
            let v = Verdicts::new(*calls, gs[*g]);
            let mut st = sim(|| Strat::make(*kind));
            for _ in 0..*n {
                count(P_GEN);
                let mut f = |p: &Production, d: usize| {
                    v.enter();
                    st.pick(p, d)
                };
                let mut l = Limit { inner: &mut f, left: 300, calls: 0, picks: vec![] };
                let r = sim(|| if calls.callback() { bnfcalls::by_strategy_callback(gs[*g], &|a, b| v.ask(a, b), &mut l) } else { bnfcalls::by_strategy(gs[*g], &mut l) });
                let _ = writeln!(out, "{} {:?}", outcome(r), l.picks);
            }
            out.push_str(&v.log());
        }
        Op::CloneEq { g } => {
            let ok = sim(|| {
                let c = gs[*g].clone();
                c == *gs[*g]
            });
            check!(ok, "clone", "a clone differs from its grammar");
            let _ = write!(out, "{ok}");
        }
        Op::Rebuild { g, how } => {
            let c = &cases[*g];
            let s = sim(|| {
                let b = c.build(*how);
                format!("{b:?}")
            });
            out.push_str(&s);
        }
        Op::Slot { states } => run_slot(states, out),
        Op::Page { texts, how } => read_page(texts, *how, out),
    }
}
/// One parse, judged tree by tree; `out` gets everything observable.
#[allow(clippy::too_many_arguments)]
fn run_parse(who: &str, gr: &'static Grammar, case: &GCase, exp: &PExp, api: usize, take: usize, show: Option<Calls>, out: &mut String) {
    use std::fmt::Write;
    count(P_PARSE);
            let start = Held::new(|| Term::Nonterminal(exp.start.clone()));
            let inp = Held::new(|| exp.input.clone());
            let parser: Option<Held<GrammarParser<'static>>> = if api < 2 {
                Some(Held::new(|| match gr.build_parser() {
                    Ok(p) => p,
                    Err(e) => harness(|| violate!("validation", "build_parser refused a valid grammar: {e}")),
                }))
            } else {
                None
            };
            let mut it: Option<Iter> = Some(sim(|| open(gr, parser.as_ref().map(|p| p.get()), inp.get(), start.get(), api)));
            let anon = case.anon();
            let mut seen: BTreeMap<String, u64> = BTreeMap::new();
            let mut k = 0u64;
            let mut ended = false;
            let soft = Soft::when(exp.trees.is_none());
            while (k as usize) < take {
                match sim(|| it.as_mut().unwrap().next()) {
                    None => {
                        ended = true;
                        break;
                    }
                    Some(t) => {
                        k += 1;
                        count(P_TREES);
                        let m = tree_of(&t, &anon);
                        let c = m.canon();
                        let n = seen.entry(c.clone()).or_default();
                        *n += 1;
                        exp.judge(&who, &m, &c, *n);
                        let _ = writeln!(out, "{c}");
                        if let Some(calls) = show
                            && k <= 2
                        {
                            let v = Verdicts::new(calls, gr);
                            let (a, b) = sim(|| if calls.callback() { (tapped(&v, format_args!("{t}")), tapped(&v, format_args!("{}", t.mermaid()))) } else { (t.to_string(), t.mermaid().to_string()) });
                            out.push_str(&v.log());
                            let _ = write!(out, "{a}{b}");
                            if gr.productions_iter().count() == case.user.len() {
                                check!(a == render_tree(&m), "tree-text", "{who}: tree drawing differs from the tree:\n{a}\nexpected\n{}", render_tree(&m));
                                check!(b == render_mermaid(&m), "tree-text", "{who}: chart differs from the tree:\n{b}\nexpected\n{}", render_mermaid(&m));
                            }
                        }
                        sim(|| drop(t));
                    }
                }
                sched::yield_point();
            }
            drop(soft);
            if ended {
                exp.judge_end(&who, k);
                let again = sim(|| it.as_mut().unwrap().next().is_some());
                check!(!again, "revived", "{who}: an ended iteration yielded another tree");
            }
            let _ = writeln!(out, "ended={ended}");
            sim(|| drop(it.take()));
            if let Some(p) = parser {
                p.free();
            }
            start.free();
            inp.free();
}
/// The same place holds one grammar after another.
fn run_slot(states: &[SlotState], out: &mut String) {
    use std::fmt::Write;
    let slot = Held::new(|| states[0].mg.to_parts());
    let mut last: &SlotState = &states[0];
    for (k, s) in states.iter().enumerate() {
        if k > 0 {
            count(F_EDIT);
            sched::yield_point();
            if s.edit {
                sim(|| {
                    let want = s.mg.to_parts();
                    for (p, q) in slot.get_mut().productions_iter_mut().zip(want.productions_iter()) {
                        for (e, f) in p.rhs_iter_mut().zip(q.rhs_iter()) {
                            for (t, u) in e.terms_iter_mut().zip(f.terms_iter()) {
                                if t != u {
                                    *t = u.clone();
                                }
                            }
                        }
                    }
                });
            } else {
                sim(|| {
                    let old = std::mem::replace(slot.get_mut(), Grammar::from_parts(vec![]));
                    drop(old);
                    *slot.get_mut() = s.mg.to_parts();
                });
            }
            std::hint::black_box(last);
        }
        last = s;
        let g = slot.get();
        for a in &s.acts {
            count(P_SLOT);
            match a {
                0 => {
                    let r = sim(|| g.validate());
                    judge_validation(&s.mg, "validate (grammar changed in place)", &r);
                    let _ = writeln!(out, "{r:?}");
                }
                1 => {
                    let r = sim(|| g.build_parser().map(|_| ()));
                    judge_validation(&s.mg, "build_parser (grammar changed in place)", &r);
                    let _ = writeln!(out, "{r:?}");
                }
                2 => {
                    let t = sim(|| g.to_string());
                    let want = render_grammar(&s.mg);
                    check!(t == want, "stale-text", "grammar changed in place is displayed as\n{t}\nbut is\n{want}");
                    out.push_str(&t);
                }
                3 => {
                    if let Some(exp) = &s.exp {
                        let api = if s.mg.undefined().is_empty() { k % 4 } else { 2 + k % 2 };
                        let case = GCase { mg: s.mg.clone(), user: s.mg.names().iter().map(|n| n.to_string()).collect(), bnf: None, abnf: None };
                        let take = if exp.trees.is_none() { 2 } else { usize::MAX };
                        run_parse("grammar changed in place", g, &case, exp, api, take, None, out);
                    }
                }
                _ => {
                    if s.mg.prods.is_empty() || has_unchoosable(&s.mg) || !s.mg.undefined().is_empty() {
                        continue;
                    }
                    count(P_GEN);
                    let mut st = sim(|| Strat::make(s.kind));
                    let mut f = |p: &Production, d: usize| st.pick(p, d);
                    let mut l = Limit { inner: &mut f, left: 200, calls: 0, picks: vec![] };
                    let r = sim(|| bnfcalls::by_strategy(g, &mut l));
                    if let Ok(t) = &r
                        && t.len() <= 40
                        && !s.mg.cyclic()
                    {
                        check!(Deriv::new(&s.mg, t).member(s.mg.start()), "stale-sentence", "grammar changed in place generates {t:?}, which it does not derive:\n{}", render_grammar(&s.mg));
                    }
                    let _ = writeln!(out, "{} {:?}", outcome(r), l.picks);
                }
            }
        }
    }
    slot.free();
}
/// Open a parse iteration by the chosen entry point (call inside `env::sim`).
#[allow(deprecated)]
pub fn open(g: &'static Grammar, p: Option<&'static GrammarParser<'static>>, input: &'static str, start: &'static Term, api: usize) -> Iter {
    match api {
        0 => Box::new(p.unwrap().parse_input(input)),
        1 => Box::new(p.unwrap().parse_input_starting_with(input, start)),
        2 => Box::new(g.parse_input(input)),
        _ => Box::new(g.parse_input_starting_with(input, start)),
    }
}

/// Mixed grammar pool for op scripts.
pub fn draw_pool(n: usize, undefined: bool) -> (Vec<GCase>, Vec<bool>) {
    let mut cases = vec![];
    let mut walks = vec![];
    for _ in 0..n {
        let c = match weighted(&[4, 4, if undefined { 2 } else { 0 }]) {
            0 => parse_case(&GOpt { cyclic: chance(1, 8), ..PARSEABLE }),
            1 => walk_case(),
            _ => {
                if chance(1, 12) {
                    GCase { mg: MG::default(), user: Default::default(), bnf: None, abnf: None }
                } else {
                    parse_case(&GOpt { undefined: true, ..PARSEABLE })
                }
            }
        };
        let h = c.mg.productive_first();
        let w = !c.mg.prods.is_empty()
            && c.mg.undefined().is_empty()
            && !has_unchoosable(&c.mg)
            && c.mg.names().iter().all(|n| h.contains_key(*n))
            && mean_size(&c.mg).is_some_and(|m| m < 40.0);
        note_grammar(&c);
        ev!("grammar {} :\n{}", cases.len(), c.show());
        cases.push(c);
        walks.push(w);
    }
    (cases, walks)
}
pub fn build_all(cases: &[GCase], hows: &[How]) -> Vec<Held<Grammar>> {
    cases.iter().zip(hows).map(|(c, h)| Held::new(|| c.build(*h))).collect()
}
pub struct Shared0<T>(pub RefCell<T>);
