//! C10: formatting into sinks that fail, stall, panic or call back into the library.

use super::common::*;
use crate::env::{harness, sim};
use crate::r#gen::*;
use crate::model::*;
use crate::run::*;
use crate::sched;
use crate::{check, ev, violate};
use bnf::{Expression, Grammar, ParseTree, ParseTreeNode, Production, Term};
use std::fmt::{self, Write as _};
use std::io;

/// Something to format, with its complete text as the model draws it.
pub struct Value {
    what: String,
    kind: Kind,
    full: String,
}
#[derive(Clone, Copy)]
enum Kind {
    Term(&'static Term),
    Expr(&'static Expression),
    Prod(&'static Production),
    Gram(&'static Grammar),
    Tree(&'static ParseTree<'static>),
    Chart(&'static ParseTree<'static>),
}
impl fmt::Display for Kind {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Kind::Term(x) => fmt::Display::fmt(x, f),
            Kind::Expr(x) => fmt::Display::fmt(x, f),
            Kind::Prod(x) => fmt::Display::fmt(x, f),
            Kind::Gram(x) => fmt::Display::fmt(x, f),
            Kind::Tree(x) => fmt::Display::fmt(x, f),
            Kind::Chart(x) => fmt::Display::fmt(&x.mermaid(), f),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// the k-th write fails, delivering nothing
    AtWrite(usize),
    /// the write crossing this many bytes fails, delivering what still fits
    AtByte(usize),
    /// the k-th write panics
    Panic(usize),
}
struct Sink<'a> {
    got: Vec<u8>,
    writes: usize,
    fault: Fault,
    failed: bool,
    late: bool,
    /// format this value into a string during the k-th write
    nested: Option<(usize, &'a Value)>,
    // io flavour
    short: usize,
    intr: usize,
    zero: bool,
}
impl<'a> Sink<'a> {
    fn new(fault: Fault, nested: Option<(usize, &'a Value)>) -> Self {
        Sink { got: vec![], writes: 0, fault, failed: false, late: false, nested, short: 0, intr: 0, zero: false }
    }
    /// Ok(n): accepted n bytes
    fn take(&mut self, b: &[u8]) -> Result<usize, ()> {
        if self.failed {
            self.late = true;
            return Ok(b.len());
        }
        let k = self.writes;
        self.writes += 1;
        if let Some((n, v)) = self.nested
            && n == k
        {
            count(F_REENTRY);
            let s = sim(|| v.kind.to_string());
            check!(s == v.full, "nested", "{} formatted from inside a sink gives\n{s}\ninstead of\n{}", v.what, v.full);
        }
        match self.fault {
            Fault::AtWrite(n) if n == k => {
                self.failed = true;
                count(F_SINK_ERR);
                return Err(());
            }
            Fault::AtByte(n) if self.got.len() + b.len() > n => {
                let fit = n - self.got.len();
                self.got.extend_from_slice(&b[..fit]);
                self.failed = true;
                count(F_SINK_ERR);
                return Err(());
            }
            Fault::Panic(n) if n == k => {
                self.failed = true;
                count(F_PANIC_SINK);
                std::panic::resume_unwind(Box::new("sink down"));
            }
            _ => {}
        }
        self.got.extend_from_slice(b);
        Ok(b.len())
    }
}
impl fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        sched::yield_point();
        harness(|| self.take(s.as_bytes()).map(|_| ()).map_err(|_| fmt::Error))
    }
}
impl io::Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        sched::yield_point();
        harness(|| {
            if self.intr > 0 && self.writes % 3 == 1 {
                self.intr -= 1;
                count(F_EINTR);
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            let n = if self.short > 0 && b.len() > self.short {
                count(F_SHORT_WRITE);
                self.short
            } else {
                b.len()
            };
            match self.take(&b[..n]) {
                Ok(n) => Ok(n),
                Err(()) if self.zero => Ok(0),
                Err(()) => Err(io::Error::other("disk full")),
            }
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn values() -> Vec<Value> {
    let mut out: Vec<Value> = vec![];
    let n = range(1, 3);
    for i in 0..n {
        let long = chance(1, 6);
        let (c, known) = if long {
            let (mg, t) = long_case();
            count(P_DEEP);
            (GCase::plain(mg, false), Some(t))
        } else {
            (parse_case(&GOpt { cyclic: chance(1, 10), ..PARSEABLE }), None)
        };
        note_grammar(&c);
        let how = c.how();
        let g = Held::new(|| c.build(how)).get();
        let mg = super::c04::sim_free_model(&c, g);
        let mut add = |what: String, kind: Kind, full: String| out.push(Value { what, kind, full });
        if !long || chance(1, 2) {
            add(format!("grammar {i}"), Kind::Gram(g), render_grammar(&mg));
        }
        let p = choose(mg.prods.len());
        if let Some(pr) = g.productions_iter().nth(p) {
            let (l, alts) = &mg.prods[p];
            add(format!("production {p} of grammar {i}"), Kind::Prod(pr), render_prod(l, alts));
            add(format!("left-hand side {p} of grammar {i}"), Kind::Term(&pr.lhs), render_term(&MT::N(l.clone())));
            if !alts.is_empty() {
                let a = choose(alts.len());
                if let Some(e) = pr.rhs_iter().nth(a) {
                    add(format!("alternative {a} of production {p} of grammar {i}"), Kind::Expr(e), render_expr(&alts[a]));
                    if !alts[a].is_empty() {
                        let t = choose(alts[a].len());
                        if let Some(tt) = e.terms_iter().nth(t) {
                            add(format!("term {t} of it"), Kind::Term(tt), render_term(&alts[a][t]));
                        }
                    }
                }
            }
        }
        // trees
        let exp = match known {
            Some(t) => PExp::known(&c.mg, std::slice::from_ref(&t)),
            None => draw_parse(&c.mg, c.mg.start()),
        };
        let input: &'static str = Held::new(|| exp.input.clone()).get();
        let soft = Soft::when(exp.trees.is_none());
        #[allow(deprecated)]
        let mut trees: Vec<ParseTree<'static>> = sim(|| g.parse_input(input).take(3).collect());
        drop(soft);
        if trees.len() >= 2 && chance(1, 2) {
            graft(&mut trees);
        } else if trees.len() == 1 && chance(1, 3) {
            let t = sim(|| trees[0].clone());
            trees.push(t);
            graft(&mut trees);
        }
        for (k, t) in trees.into_iter().enumerate() {
            let t = Held::new(|| t).get();
            let m = tree_of(t, &|_| false);
            add(format!("tree {k} of grammar {i}"), Kind::Tree(t), render_tree(&m));
            add(format!("chart of tree {k} of grammar {i}"), Kind::Chart(t), render_mermaid(&m));
        }
    }
    out
}
/// Edit the first tree through its mutable iterator: hang another tree somewhere inside it.
fn graft(trees: &mut [ParseTree<'static>]) {
    count(F_MOVE);
    let times = range(1, 3);
    for _ in 0..times {
        let k = trees.len() - 1;
        let path: Vec<usize> = (0..range(1, 6)).map(|_| choose(4)).collect();
        sim(|| {
            let donor = trees[k].clone();
            let mut at = &mut trees[0];
            let mut left = path.as_slice();
            loop {
                let n = at.rhs_iter().count();
                if n == 0 {
                    return;
                }
                let i = left[0] % n;
                left = &left[1..];
                let node = at.rhs_iter_mut().nth(i).unwrap();
                if left.is_empty() || matches!(node, ParseTreeNode::Terminal(_)) {
                    *node = ParseTreeNode::Nonterminal(donor);
                    return;
                }
                match node {
                    ParseTreeNode::Nonterminal(t) => at = t,
                    ParseTreeNode::Terminal(_) => return,
                }
            }
        });
    }
}

#[derive(Clone, Copy, Debug)]
struct Job {
    v: usize,
    fault: Fault,
    io: bool,
    short: usize,
    intr: usize,
    zero: bool,
    nested: Option<(usize, usize)>,
}
fn draw_job(vals: &[Value]) -> Job {
    let v = choose(vals.len());
    let len = vals[v].full.len();
    // write positions are not known beforehand; bytes bound them
    let fault = match weighted(&[2, 5, 5, 1]) {
        0 => Fault::None,
        1 => Fault::AtWrite(if chance(1, 2) { choose(12) } else { choose(len / 3 + 4) }),
        2 => Fault::AtByte(if chance(1, 3) { choose(8.min(len + 1)) } else { choose(len + 2) }),
        _ => Fault::Panic(choose(len / 4 + 3)),
    };
    Job {
        v,
        fault,
        io: chance(1, 3),
        short: if chance(1, 2) { range(1, 5) } else { 0 },
        intr: choose(4),
        zero: chance(1, 4),
        nested: chance(1, 4).then(|| (choose(10), choose(vals.len()))),
    }
}
fn do_job(vals: &[Value], j: Job) {
    let v = &vals[j.v];
    let mut s = Sink::new(j.fault, j.nested.map(|(k, n)| (k, &vals[n])));
    s.short = j.short;
    s.intr = j.intr;
    s.zero = j.zero;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        sim(|| {
            if j.io {
                use io::Write as _;
                io::Write::write_fmt(s.by_ref(), format_args!("{}", v.kind)).is_ok()
            } else {
                fmt::Write::write_fmt(&mut s, format_args!("{}", v.kind)).is_ok()
            }
        })
    }));
    count(P_OPS);
    let got = String::from_utf8_lossy(&s.got).into_owned();
    ev!("{j:?} -> {} after {} writes, {} of {} bytes", match &r { Ok(true) => "ok", Ok(false) => "error", Err(_) => "panic" }, s.writes, s.got.len(), v.full.len());
    sig((s.writes as u64) << 20 | (j.v as u64) << 8 | s.failed as u64);
    check!(!s.late, "late-write", "{}: text was written after the sink had failed ({:?})\ncomplete text:\n{}", v.what, j.fault, v.full);
    check!(v.full.as_bytes().starts_with(&s.got), "not-a-prefix", "{}: the sink received ({:?})\n{got}\nwhich is not a prefix of\n{}", v.what, j.fault, v.full);
    match r {
        Ok(true) => {
            check!(!s.failed, "swallowed", "{}: the sink failed ({:?}) but formatting reported success; delivered\n{got}", v.what, j.fault);
            check!(s.got.len() == v.full.len(), "incomplete", "{}: reported success but delivered only\n{got}\nof\n{}", v.what, v.full);
        }
        Ok(false) => check!(s.failed, "spurious", "{}: reported an error although the sink accepted everything; delivered\n{got}", v.what),
        Err(p) => {
            let injected = matches!(j.fault, Fault::Panic(_)) && s.failed;
            check!(injected, "panic", "{}: formatting panicked: {}", v.what, panic_text(&*p));
        }
    }
    if s.failed {
        // the sink is replaced: formatting again is complete
        count(P_HEALED);
        let again = must("formatting again", || {
            let mut o = String::new();
            write!(o, "{}", v.kind).map(|_| o)
        });
        match again {
            Ok(a) => check!(a == v.full, "retry", "{}: formatting again after a failure gives\n{a}\ninstead of\n{}", v.what, v.full),
            Err(_) => violate!("retry", "{}: formatting into a string fails after an earlier failure", v.what),
        }
    }
}

/// A very large tree, drawn and charted, into healthy and failing sinks.
fn bulk(e: crate::env::EnvCfg) {
    // hash tables that degenerate into lists would make parsing quadratic
    crate::env::set_env(crate::env::EnvCfg { hash_mode: 0, ..e });
    let (mg, trees) = bulk_tree();
    let c = GCase::plain(mg, false);
    note_grammar(&c);
    let exp = PExp::known(&c.mg, &trees);
    let g = Held::new(|| c.build(How::Parts)).get();
    let input: &'static str = Held::new(|| exp.input.clone()).get();
    #[allow(deprecated)]
    let Some(t) = sim(|| g.parse_input(input).next()) else { violate!("missing-trees", "no tree of a derivable input\n{}", c.show()) };
    let t = Held::new(|| t).get();
    let m = tree_of(t, &|_| false);
    case_sig(&format!("{}{input}", c.show()));
    let vals = vec![
        Value { what: "a large tree".into(), kind: Kind::Tree(t), full: render_tree(&m) },
        Value { what: "the chart of a large tree".into(), kind: Kind::Chart(t), full: render_mermaid(&m) },
    ];
    for v in &vals {
        let s = must("to_string", || v.kind.to_string());
        if s != v.full {
            let at = s.bytes().zip(v.full.bytes()).position(|(a, b)| a != b).unwrap_or(s.len().min(v.full.len()));
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(60).min(s.len())..(at + 60).min(s.len())]).into_owned();
            violate!("incomplete", "{} ({} bytes instead of {}) differs at byte {at}: {:?} instead of {:?}", v.what, s.len(), v.full.len(), cut(&s), cut(&v.full));
        }
    }
    for _ in 0..choose(3) {
        let j = draw_job(&vals);
        do_job(&vals, j);
    }
}
pub fn run() {
    let e = draw_env();
    crate::env::set_env(e);
    nontrivial();
    if chance(1, 600) && !repeated() {
        return bulk(e);
    }
    let vals = values();
    // fault-free first: every value is shown completely
    for v in &vals {
        let s = must("to_string", || v.kind.to_string());
        ev!("{}:\n{s}", v.what);
        check!(s == v.full, "incomplete", "{}: shown as\n{s}\ninstead of\n{}", v.what, v.full);
    }
    let threads = chance(1, 3);
    let nt = if threads { range(2, 3) } else { 1 };
    let jobs: Vec<Vec<Job>> = (0..nt).map(|_| (0..range(2, if threads { 6 } else { 16 })).map(|_| draw_job(&vals)).collect()).collect();
    case_sig(&format!("{jobs:?}"));
    if !threads {
        for j in &jobs[0] {
            do_job(&vals, *j);
        }
        return;
    }
    let vs: &'static [Value] = unsafe { std::mem::transmute(vals.as_slice()) };
    let mut bodies: Vec<Box<dyn FnOnce()>> = vec![];
    for js in jobs {
        let te = crate::env::EnvCfg { hash_seed: u64_(), ..e };
        bodies.push(Box::new(move || {
            crate::env::set_env(te);
            for j in js {
                do_job(vs, j);
                sched::yield_point();
            }
        }));
    }
    let gap = range(1, 5);
    sched::run_threads(bodies, gap, [1, 1, 8][choose(3)]);
}
