//! Workload generation: grammars (plain and with groups/optionals), their texts, and inputs.
//! Every decision is drawn from the run's choice stream.

use crate::model::*;
use crate::run::*;
use bnf::Grammar;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ extended syntax
#[derive(Clone, Debug)]
pub enum ET {
    T(String),
    N(String),
    Group(Vec<Vec<ET>>),
    Opt(Vec<Vec<ET>>),
}
pub type EG = Vec<(String, Vec<Vec<ET>>)>;

/// Replace groups and optionals by fresh names `#k` (optionals may also be empty).
pub fn lower(eg: &EG) -> MG {
    fn alts(a: &[Vec<ET>], k: &mut usize, extra: &mut Vec<(String, Vec<Vec<MT>>)>) -> Vec<Vec<MT>> {
        a.iter()
            .map(|e| {
                e.iter()
                    .map(|t| match t {
                        ET::T(s) => MT::T(s.clone()),
                        ET::N(s) => MT::N(s.clone()),
                        ET::Group(g) | ET::Opt(g) => {
                            let name = format!("#{k}");
                            *k += 1;
                            let mut r = alts(g, k, extra);
                            if matches!(t, ET::Opt(_)) {
                                r.push(vec![MT::T(String::new())]);
                            }
                            extra.push((name.clone(), r));
                            MT::N(name)
                        }
                    })
                    .collect()
            })
            .collect()
    }
    let mut k = 0;
    let mut extra = vec![];
    let mut prods: Vec<_> = eg.iter().map(|(l, a)| (l.clone(), alts(a, &mut k, &mut extra))).collect();
    prods.extend(extra);
    MG { prods }
}
fn plain_eg(g: &MG) -> EG {
    g.prods
        .iter()
        .map(|(l, a)| {
            (
                l.clone(),
                a.iter()
                    .map(|e| {
                        e.iter()
                            .map(|t| match t {
                                MT::T(s) => ET::T(s.clone()),
                                MT::N(s) => ET::N(s.clone()),
                            })
                            .collect()
                    })
                    .collect(),
            )
        })
        .collect()
}

/// Print as text. Layout (spacing, comments, quote style) is drawn from the stream.
pub fn print_text(eg: &EG, abnf: bool, fancy: bool) -> String {
    let mut o = String::new();
    let gap = |o: &mut String| {
        if fancy && chance(1, 6) {
            o.push_str(["  ", "\n   ", " ; note 'x <y> |\n ", "\t", "\r\n "][choose(5)]);
        } else {
            o.push(' ');
        }
    };
    fn q(s: &str, o: &mut String, fancy: bool) {
        let dq = if s.contains('\'') {
            true
        } else if s.contains('"') {
            false
        } else {
            fancy && chance(1, 2)
        };
        let c = if dq { '"' } else { '\'' };
        o.push(c);
        o.push_str(s);
        o.push(c);
    }
    fn alts(a: &[Vec<ET>], o: &mut String, abnf: bool, fancy: bool, gap: &dyn Fn(&mut String), inner: bool) {
        for (i, e) in a.iter().enumerate() {
            if i > 0 {
                o.push(if abnf { '/' } else { '|' });
                gap(o);
            }
            for (j, t) in e.iter().enumerate() {
                match t {
                    ET::T(s) => q(s, o, fancy),
                    ET::N(s) if abnf => o.push_str(s),
                    ET::N(s) => {
                        o.push('<');
                        o.push_str(s);
                        o.push('>');
                    }
                    ET::Group(g) | ET::Opt(g) => {
                        let (x, y) = if matches!(t, ET::Group(_)) { ('(', ')') } else { ('[', ']') };
                        o.push(x);
                        alts(g, o, abnf, fancy, gap, true);
                        o.push(y);
                    }
                }
                let last = i + 1 == a.len() && j + 1 == e.len();
                if !(inner && last && (!fancy || chance(1, 2))) {
                    gap(o);
                }
            }
        }
    }
    if fancy && chance(1, 5) {
        o.push_str("; heading \"quoted\n");
    }
    for (i, (l, a)) in eg.iter().enumerate() {
        if abnf {
            o.push_str(l);
        } else {
            o.push('<');
            o.push_str(l);
            o.push('>');
        }
        gap(&mut o);
        o.push_str(if abnf { "=" } else { "::=" });
        gap(&mut o);
        alts(a, &mut o, abnf, fancy, &gap, false);
        if i + 1 < eg.len() || !fancy || chance(1, 2) {
            o.push('\n');
        }
        if fancy && chance(1, 8) {
            o.push_str("\n; comment line\n");
        }
    }
    o
}

// ------------------------------------------------------------------ a grammar case
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    Parts,
    Bnf,
    Abnf,
    Auto,
    Json,
    Incremental,
}

#[derive(Clone, Debug)]
pub struct GCase {
    pub mg: MG,
    pub user: BTreeSet<String>,
    pub bnf: Option<String>,
    pub abnf: Option<String>,
}
impl GCase {
    pub fn anon(&self) -> impl Fn(&str) -> bool + '_ {
        |n: &str| n.starts_with('#') || (n.starts_with("__anon") && !self.user.contains(n))
    }
    pub fn from_eg(eg: &EG, fancy: bool) -> GCase {
        let mg = lower(eg);
        let user: BTreeSet<String> = eg.iter().map(|p| p.0.clone()).collect();
        let (mut b, mut a) = (true, true);
        fn scan(alts: &[Vec<ET>], b: &mut bool, a: &mut bool) {
            if alts.is_empty() {
                *b = false;
                *a = false;
            }
            for e in alts {
                if e.is_empty() {
                    *b = false;
                    *a = false;
                }
                for t in e {
                    match t {
                        ET::T(s) => {
                            if s.contains('\'') && s.contains('"') {
                                *b = false;
                                *a = false;
                            }
                        }
                        ET::N(n) => name_ok(n, b, a),
                        ET::Group(g) | ET::Opt(g) => scan(g, b, a),
                    }
                }
            }
        }
        fn name_ok(n: &str, b: &mut bool, a: &mut bool) {
            if n.contains('>') {
                *b = false;
            }
            if !n.chars().next().is_some_and(|c| c.is_alphabetic())
                || n.chars().any(|c| c.is_whitespace() || c == ')' || c == ']')
            {
                *a = false;
            }
        }
        for (l, alts) in eg {
            name_ok(l, &mut b, &mut a);
            scan(alts, &mut b, &mut a);
        }
        // an undefined name that looks generated would be captured (noted in DESIGN.md)
        if mg.undefined().iter().any(|u| u.starts_with("__anon")) {
            b = false;
            a = false;
        }
        GCase {
            bnf: b.then(|| print_text(eg, false, fancy)),
            abnf: a.then(|| print_text(eg, true, fancy)),
            mg,
            user,
        }
    }
    pub fn plain(mg: MG, fancy: bool) -> GCase {
        let eg = plain_eg(&mg);
        let mut c = GCase::from_eg(&eg, fancy);
        c.mg = mg;
        c
    }
    pub fn how(&self) -> How {
        let mut v = vec![How::Parts];
        if self.bnf.is_some() {
            v.push(How::Bnf);
            v.push(How::Auto);
        }
        if self.abnf.is_some() {
            v.push(How::Abnf);
        }
        v.push(How::Json);
        v.push(How::Incremental);
        *pick(&v)
    }
    /// Build through the library (call inside `env::sim`).
    pub fn build(&self, how: How) -> Grammar {
        let bad = |e: &dyn std::fmt::Display, t: &str| -> ! {
            crate::env::harness(|| violate("text-refused", &format!("grammar text refused: {e}\n{t}")))
        };
        match how {
            How::Parts => self.mg.to_parts(),
            How::Bnf => {
                let t = self.bnf.as_ref().unwrap();
                bnfcalls::read_bnf(t).unwrap_or_else(|e| bad(&e, t))
            }
            How::Auto => {
                let t = self.bnf.as_ref().unwrap();
                t.parse::<Grammar>().unwrap_or_else(|e| bad(&e, t))
            }
            How::Abnf => {
                let t = self.abnf.as_ref().unwrap();
                bnfcalls::read_abnf(t).unwrap_or_else(|e| bad(&e, t))
            }
            How::Json => {
                let j = serde_json::to_string(&self.mg.to_parts()).unwrap_or_else(|e| bad(&e, "to json"));
                serde_json::from_str(&j).unwrap_or_else(|e| bad(&e, &j))
            }
            How::Incremental => {
                let mut g = Grammar::new();
                for p in self.mg.to_parts().productions_iter() {
                    g.add_production(p.clone());
                }
                g
            }
        }
    }
    pub fn show(&self) -> String {
        render_grammar(&self.mg)
    }
}

// ------------------------------------------------------------------ random grammars
const PLAIN: &[&str] = &["a", "b", "c"];
const MULTI: &[&str] = &["a", "b", "ab", "aa", "ba", "aba"];
const UNI: &[&str] = &["a", "é", "日", "😀", "日本", "ñandú"];
const ODD: &[&str] = &["a", "'", "\"", ";", "|", "::=", "<", ">", "(", ")", "[", "]", " ", "\n", "\\", "#", "&", "/", "=", "\t", "a'b", "<x>", "\0", "a ", "\u{feff}", "\r", "x\0", " a", "\u{301}", "A", "\u{7f}", "%"];
const NAMES: &[&str] = &["s", "t", "u", "v", "w"];
const NAMES2: &[&str] = &["start", "list-item", "expr_1", "Ünï", "表情", "S2", "a"];
const NAMES3: &[&str] = &["s", "__anon0", "__anon1", "__anon2", "t"];
const NAMES5: &[&str] = &["Rule", "rule", "RULE", "rules", "rul"];
const NAMES4: &[&str] = &["s t", "<", "x/y", "a(b", "#x y", "日 本"];

#[derive(Clone, Copy)]
pub struct GOpt {
    pub undefined: bool,
    pub cyclic: bool,
    /// empty alternatives (only expressible as parts)
    pub bare_empty: bool,
    pub extended: bool,
    pub odd: bool,
    pub max_names: usize,
}
pub const PARSEABLE: GOpt = GOpt { undefined: false, cyclic: false, bare_empty: true, extended: true, odd: true, max_names: 4 };

fn rename_odd(n: &str) -> String {
    // '#x y' would look generated in the model
    n.strip_prefix('#').map_or(n.to_string(), |r| r.to_string())
}

pub fn random_eg(o: &GOpt) -> EG {
    let letters: &[&str] = match weighted(&[5, 3, 2, if o.odd { 2 } else { 0 }]) {
        0 => PLAIN,
        1 => MULTI,
        2 => UNI,
        _ => ODD,
    };
    let names: &[&str] = match weighted(&[6, 2, 1, if o.odd { 1 } else { 0 }, 1]) {
        0 => NAMES,
        1 => NAMES2,
        2 => NAMES3,
        4 => NAMES5,
        _ => NAMES4,
    };
    let n = range(1, o.max_names.min(names.len()));
    let names: Vec<String> = names[..n].iter().map(|n| rename_odd(n)).collect();
    let nl = range(1, letters.len().min(4));
    let off = choose(letters.len() - nl + 1);
    let letters = &letters[off..off + nl];
    let p_empty = [0, 0, 1, 3][choose(4)];
    let p_nt = range(1, 6);
    let ext = o.extended && chance(1, 3);
    let p_dup = chance(1, 8);
    let undefined: Vec<String> = if o.undefined && chance(1, 2) {
        (0..range(1, 3)).map(|i| format!("undef{i}")).collect()
    } else {
        vec![]
    };
    struct Cx<'a> {
        letters: &'a [&'a str],
        names: &'a [String],
        undefined: &'a [String],
        p_empty: usize,
        p_nt: usize,
        ext: bool,
    }
    fn expr(c: &Cx, depth: usize, bare: bool) -> Vec<ET> {
        if bare && c.p_empty > 0 && chance(1, 12) {
            return vec![];
        }
        let n = 1 + weighted(&[5, 5, 3, 1]);
        (0..n).map(|_| term(c, depth)).collect()
    }
    fn term(c: &Cx, depth: usize) -> ET {
        if c.ext && depth < 3 && chance(1, 5) {
            let alts = (0..range(1, 3)).map(|_| expr(c, depth + 1, false)).collect();
            return if chance(1, 2) { ET::Opt(alts) } else { ET::Group(alts) };
        }
        if chance(c.p_nt, 12) {
            let k = choose(c.names.len() + c.undefined.len());
            return ET::N(if k < c.names.len() { c.names[k].clone() } else { c.undefined[k - c.names.len()].clone() });
        }
        if chance(c.p_empty, 12) {
            return ET::T(String::new());
        }
        ET::T(pick(c.letters).to_string())
    }
    let c = Cx { letters, names: &names, undefined: &undefined, p_empty, p_nt, ext };
    let mut g: EG = vec![];
    for n in &names {
        let k = 1 + weighted(&[3, 6, 4, 1]);
        let mut alts: Vec<Vec<ET>> = (0..k).map(|_| expr(&c, 0, o.bare_empty)).collect();
        if p_dup && chance(1, 3) {
            let d = alts[choose(alts.len())].clone();
            alts.push(d);
        }
        g.push((n.clone(), alts));
    }
    if p_dup && chance(1, 2) {
        // a second production for the same name
        let n = names[choose(names.len())].clone();
        let alts = (0..range(1, 2)).map(|_| expr(&c, 0, o.bare_empty)).collect();
        g.push((n, alts));
    }
    if chance(1, 10) {
        stretch(&mut g, o.extended);
    }
    g
}
/// Make one dimension of the grammar large: alternatives, rules, terms, texts, names, nesting.
pub fn stretch(g: &mut EG, extended: bool) {
    count(P_STRETCH);
    let r = choose(g.len());
    let tt = |s: &str| ET::T(s.into());
    match choose(if extended { 6 } else { 5 }) {
        0 => {
            let k = [9, 17, 33, 65, 66, 130, 260][weighted(&[3, 3, 3, 3, 2, 2, 1])];
            let front = chance(1, 2);
            let own = g[r].0.clone();
            for i in 0..k {
                let mut a = vec![ET::T(format!("w{i}"))];
                if i % 9 == 4 {
                    a.push(ET::N(own.clone()));
                }
                if front {
                    g[r].1.insert(0, a);
                } else {
                    g[r].1.push(a);
                }
            }
        }
        1 => {
            let k = [9, 17, 33, 66, 130][weighted(&[3, 3, 2, 2, 1])];
            let mut chain: EG = (0..k)
                .map(|i| {
                    let mut a = vec![];
                    if i % 7 == 3 {
                        a.push(tt("x"));
                    }
                    a.push(if i + 1 < k { ET::N(format!("k{}", i + 1)) } else { tt("z") });
                    (format!("k{i}"), vec![a])
                })
                .collect();
            if chance(1, 2) {
                chain.reverse();
            }
            if chance(1, 2) {
                g[r].1 = vec![vec![ET::N("k0".into())]];
            } else {
                g[r].1.push(vec![ET::N("k0".into())]);
            }
            g.extend(chain);
        }
        2 => {
            let k = [9, 17, 40, 70][choose(4)];
            let mut a: Vec<ET> = (0..k).map(|i| tt(["a", "b", "", "é"][(i * i + i / 3) % 4])).collect();
            match choose(3) {
                0 => {}
                // a name at the far end
                1 => a.push(ET::N(g[choose(g.len())].0.clone())),
                // mostly names, spelled by small rules
                _ => {
                    for (i, t) in a.iter_mut().enumerate() {
                        if i % 3 != 1 {
                            *t = ET::N(format!("q{}", i % 20));
                        }
                    }
                    for i in 0..20 {
                        g.push((format!("q{i}"), vec![vec![tt(["a", "b"][i % 2])]]));
                    }
                }
            }
            g[r].1.push(a);
        }
        3 => {
            let k = [40, 127, 256, 1000, 5000][choose(5)];
            g[r].1.push(vec![ET::T(["a", "日", "ab "][choose(3)].repeat(k))]);
        }
        4 => {
            let name = "n".repeat([33, 64, 128, 300, 1025][choose(5)]);
            g[r].1.push(vec![tt("a"), ET::N(name.clone())]);
            g.push((name, vec![vec![tt("q")], vec![tt("r")]]));
        }
        _ => {
            let mut t = tt("g");
            for i in 0..[4, 8, 14][choose(3)] {
                t = if i % 3 == 1 { ET::Opt(vec![vec![t, tt("h")]]) } else { ET::Group(vec![vec![t], vec![tt("i")]]) };
            }
            g[r].1.push(vec![t]);
        }
    }
}

pub fn t(s: &str) -> MT {
    MT::T(s.into())
}
pub fn n(s: &str) -> MT {
    MT::N(s.into())
}
pub fn p(l: &str, a: Vec<Vec<MT>>) -> (String, Vec<Vec<MT>>) {
    (l.into(), a)
}
/// Classic shapes known to stress chart parsers.
pub fn template() -> MG {
    let prods = match weighted(&[1; 18]) {
        0 => vec![p("dna", vec![vec![n("base")], vec![n("base"), n("dna")]]), p("base", vec![vec![t("A")], vec![t("C")], vec![t("G")], vec![t("T")]])],
        1 => vec![p("e", vec![vec![n("e"), t("+"), n("e")], vec![n("e"), t("*"), n("e")], vec![t("1")], vec![t("("), n("e"), t(")")]])],
        2 => vec![p("s", vec![vec![n("s"), n("s")], vec![t("a")]])],
        3 => vec![p("s", vec![vec![t("("), n("s"), t(")"), n("s")], vec![t("")]])],
        4 => vec![p("s", vec![vec![n("e"), n("s"), t("a")], vec![t("b")]]), p("e", vec![vec![t("")], vec![t("a")]])],
        5 => vec![
            p("st", vec![vec![t("if"), n("c"), t("then"), n("st")], vec![t("if"), n("c"), t("then"), n("st"), t("else"), n("st")], vec![t("x")]]),
            p("c", vec![vec![t("p")], vec![t("q")]]),
        ],
        6 => vec![p("pal", vec![vec![t("a"), n("pal"), t("a")], vec![t("b"), n("pal"), t("b")], vec![t("a")], vec![t("b")], vec![t("")]])],
        7 => vec![
            p("a1", vec![vec![n("b1")], vec![n("c1")]]),
            p("b1", vec![vec![n("d1")]]),
            p("c1", vec![vec![n("d1")], vec![t("x")]]),
            p("d1", vec![vec![t("x")], vec![t("x"), n("d1")]]),
        ],
        8 => vec![p("l", vec![vec![n("l"), t(","), n("i")], vec![n("i")]]), p("i", vec![vec![t("x")], vec![t("y")], vec![t("xy")]])],
        9 => vec![
            p("s", vec![vec![n("a"), n("b"), n("c")]]),
            p("a", vec![vec![t("")], vec![t("a")]]),
            p("b", vec![vec![t("")], vec![t("a")], vec![t("b")]]),
            p("c", vec![vec![t("")], vec![t("a")], vec![t("c")]]),
        ],
        10 => vec![p("s", vec![vec![n("s"), t("a")], vec![t("a"), n("s")], vec![t("a")]])],
        11 => vec![p("s", vec![vec![t("a"), n("t")]]), p("t", vec![vec![n("s"), n("t"), t("b")], vec![t("b")], vec![t("")]])],
        12 => vec![
            p("and", vec![vec![n("and"), t(" AND "), n("terminal")], vec![n("terminal")]]),
            p("terminal", vec![vec![t("AND")], vec![t("A")], vec![t(" ")]]),
        ],
        13 => vec![
            p("s", vec![vec![n("x"), n("x"), n("x")]]),
            p("x", vec![vec![n("y"), n("y")], vec![t("a")]]),
            p("y", vec![vec![t("")], vec![t("b")]]),
        ],
        14 => vec![
            p("q", vec![vec![n("w"), n("q")], vec![n("w")]]),
            p("w", vec![vec![t("日")], vec![t("日本")], vec![t("本")], vec![t("é")]]),
        ],
        15 => vec![
            p("s", vec![vec![n("l"), n("r")]]),
            p("l", vec![vec![n("l"), t("a")], vec![t("")]]),
            p("r", vec![vec![t("a"), n("r")], vec![t("")]]),
        ],
        16 => {
            // many alternatives that all derive the same text
            count(P_WIDE);
            let k = range(7, 16);
            let base = choose(2);
            let mut v = vec![p("s", (0..k).map(|i| if base == 1 && i % 2 == 0 { vec![n(&format!("w{i}")), n("tail")] } else { vec![n(&format!("w{i}"))] }).collect())];
            for i in 0..k {
                v.push(p(&format!("w{i}"), vec![vec![t("a")]]));
            }
            v.push(p("tail", vec![vec![t("")], vec![t("b")]]));
            if chance(1, 2) {
                v[1..].reverse();
            }
            v
        }
        _ => vec![
            p("s", vec![vec![t("a"), n("s"), t("b"), n("s")], vec![t("b"), n("s"), t("a"), n("s")], vec![t("")]]),
        ],
    };
    MG { prods }
}

/// A grammar case for parsing workloads.
pub fn parse_case(o: &GOpt) -> GCase {
    let fancy = chance(1, 3);
    for _ in 0..6 {
        let c = if chance(1, 3) { GCase::plain(template(), fancy) } else { GCase::from_eg(&random_eg(o), fancy) };
        if !o.cyclic && c.mg.cyclic() {
            continue;
        }
        if !c.mg.productive_all().contains(c.mg.start()) && chance(5, 6) {
            continue;
        }
        return c;
    }
    GCase::plain(template(), fancy)
}

// ------------------------------------------------------------------ inputs
pub fn heights_all(g: &MG) -> BTreeMap<String, usize> {
    let mut h: BTreeMap<String, usize> = BTreeMap::new();
    for round in 1..=g.prods.len() + 1 {
        let prev = h.clone();
        for (l, alts) in &g.prods {
            if !h.contains_key(l) && alts.iter().any(|a| alt_height(a, &prev).is_some()) {
                h.insert(l.clone(), round);
            }
        }
    }
    h
}
/// Draw a derivation; beyond the budget take the flattest alternatives.
pub fn derive(g: &MG, start: &str, budget: usize) -> Option<Tree> {
    let h = heights_all(g);
    fn go(g: &MG, h: &BTreeMap<String, usize>, name: &str, budget: &mut usize) -> Tree {
        let alts: Vec<(usize, &Vec<MT>)> =
            g.alts_of(name).filter_map(|a| alt_height(a, h).map(|x| (x, a))).collect();
        let a = if *budget > 0 {
            *budget -= 1;
            alts[choose(alts.len())].1
        } else {
            alts.iter().min_by_key(|x| x.0).unwrap().1
        };
        let kids = a
            .iter()
            .map(|t| match t {
                MT::T(s) => Tree::Leaf(s.clone()),
                MT::N(m) => go(g, h, m, budget),
            })
            .collect();
        Tree::Node(if name.starts_with('#') { "#".into() } else { name.into() }, kids)
    }
    h.contains_key(start).then(|| {
        let mut b = budget;
        go(g, &h, start, &mut b)
    })
}
pub fn letters(g: &MG) -> Vec<String> {
    let mut v: Vec<String> = g
        .prods
        .iter()
        .flat_map(|p| p.1.iter().flatten())
        .filter_map(|t| match t {
            MT::T(s) if !s.is_empty() => Some(s.clone()),
            _ => None,
        })
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect();
    if v.is_empty() {
        v.push("a".into());
    }
    v
}
/// An input: usually a sentence, sometimes damaged, sometimes noise.
pub fn input(g: &MG, start: &str, budget: usize) -> String {
    let kind = weighted(&[7, 2, 2]);
    let mut s = String::new();
    if kind < 2
        && let Some(t) = derive(g, start, budget)
    {
        t.text(&mut s);
        if kind == 1 {
            let cs: Vec<char> = s.chars().collect();
            let i = choose(cs.len() + 1);
            let l = letters(g);
            let mut v: Vec<char> = cs.clone();
            match choose(3) {
                0 if i < v.len() => {
                    v.remove(i);
                }
                1 if i < v.len() => v[i] = l[choose(l.len())].chars().next().unwrap(),
                _ => {
                    for (k, c) in l[choose(l.len())].chars().enumerate() {
                        v.insert(i + k, c);
                    }
                }
            }
            s = v.into_iter().collect();
        }
    } else {
        let l = letters(g);
        for _ in 0..choose(6) {
            s.push_str(&l[choose(l.len())]);
        }
    }
    s
}

/// Largest input (bytes) and work we let one parse have.
pub const WORK_CAP: u64 = 4_000;
pub const TREE_CAP: u64 = 200;

/// Few parts, but long ones: offsets beyond 2^8, 2^15, 2^16, 2^17 with little parsing work.
fn huge_case() -> (MG, Tree) {
    count(P_HUGE);
    let unit = [61, 127, 255, 4099, 16_381, 32_749, 65_521][weighted(&[1, 1, 1, 2, 2, 2, 1])];
    let big = |c: &str, d: usize| c.repeat((unit + d) / c.len());
    let texts = [big("x", 0), big("yz", 1), big("日", 3), "-".to_string(), big("x", 1) + "."];
    let left = chance(1, 2);
    let mut prods = vec![
        p("l", vec![vec![n("i")], if left { vec![n("l"), t(","), n("i")] } else { vec![n("i"), t(","), n("l")] }]),
        p("i", texts.iter().map(|x| vec![t(x)]).collect()),
    ];
    if chance(1, 3) {
        prods[1].1.reverse();
    }
    let mg = MG { prods };
    let item = |k: usize| match &mg.prods[1].1[k][0] {
        MT::T(s) => Tree::Node("i".into(), vec![Tree::Leaf(s.clone())]),
        _ => unreachable!(),
    };
    let mut acc = Tree::Node("l".into(), vec![item(choose(5))]);
    for _ in 0..range(2, 9) {
        let i = item(choose(5));
        acc = Tree::Node("l".into(), if left { vec![acc, Tree::Leaf(",".into()), i] } else { vec![i, Tree::Leaf(",".into()), acc] });
    }
    (mg, acc)
}

/// The same long prefix can be read in one step and in hundreds: what follows it is predicted
/// very early and needed again very late. Two or three derivations, known by construction.
fn express_case() -> (MG, Vec<Tree>) {
    count(P_EXPRESS);
    let m = [24, 120, 420, 700][choose(4)] + choose(5);
    let right = m < 200 && chance(1, 2);
    let mut prods = vec![p("s", vec![vec![n("p"), n("x")]]), p("p", vec![vec![t(&"a".repeat(m))], vec![n("l")]]), p("l", vec![vec![n("l"), t("a")], vec![t("a")]])];
    if right {
        prods[1].1.push(vec![n("r")]);
        prods.push(p("r", vec![vec![t("a"), n("r")], vec![t("a")]]));
    }
    if chance(1, 2) {
        prods[1].1.reverse();
    }
    let depth = choose(3);
    prods.push(p("x", vec![vec![t("x")], vec![t("y"), n("x")]]));
    let node = |l: &str, k: Vec<Tree>| Tree::Node(l.into(), k);
    let leaf = |l: &str| Tree::Leaf(l.into());
    let mut tail = node("x", vec![leaf("x")]);
    for _ in 0..depth {
        tail = node("x", vec![leaf("y"), tail]);
    }
    let mut heads = vec![node("p", vec![leaf(&"a".repeat(m))])];
    let mut l = node("l", vec![leaf("a")]);
    for _ in 1..m {
        l = node("l", vec![l, leaf("a")]);
    }
    heads.push(node("p", vec![l]));
    if right {
        let mut r = node("r", vec![leaf("a")]);
        for _ in 1..m {
            r = node("r", vec![leaf("a"), r]);
        }
        heads.push(node("p", vec![r]));
    }
    let trees = heads.into_iter().map(|h| node("s", vec![h, tail.clone()])).collect();
    (MG { prods }, trees)
}
/// Bulk: very many items, levels, alternatives or waiting rules at one place. All derivations are
/// known by construction.
pub fn bulk_case() -> (MG, Vec<Tree>) {
    let shape = choose(9);
    bulk_of(shape, weighted(&[1, 2, 2, 2, 1]) + 10, 2100)
}
/// A tree to be drawn: tens of thousands of nodes, or hundreds of levels.
pub fn bulk_tree() -> (MG, Vec<Tree>) {
    let shape = [0, 4, 5][choose(3)];
    bulk_of(shape, [10, 13, 15][weighted(&[3, 2, 1])], 600)
}
fn bulk_of(shape: usize, levels: usize, most: usize) -> (MG, Vec<Tree>) {
    count(P_BULK);
    let node = |l: &str, k: Vec<Tree>| Tree::Node(l.into(), k);
    let leaf = |l: &str| Tree::Leaf(l.into());
    match shape {
        7 => {
            // the same long prefix in one step and in thousands
            let levels = levels.min(13);
            let size = 1usize << levels;
            let mut prods = vec![p("s", vec![vec![n("p"), n("x")]]), p("p", vec![vec![t(&"a".repeat(size))], vec![n("x0")]])];
            prods.extend((0..levels).map(|i| p(&format!("x{i}"), vec![vec![n(&format!("x{}", i + 1)), n(&format!("x{}", i + 1))]])));
            prods.push(p(&format!("x{levels}"), vec![vec![t("a")]]));
            prods.push(p("x", vec![vec![t("x")], vec![t("y"), n("x")]]));
            let mut low = node(&format!("x{levels}"), vec![leaf("a")]);
            for d in (0..levels).rev() {
                low = node(&format!("x{d}"), vec![low.clone(), low]);
            }
            let mut tail = node("x", vec![leaf("x")]);
            for _ in 0..choose(3) {
                tail = node("x", vec![leaf("y"), tail]);
            }
            let trees = [node("p", vec![leaf(&"a".repeat(size))]), node("p", vec![low])].into_iter().map(|h| node("s", vec![h, tail.clone()])).collect();
            (MG { prods }, trees)
        }
        8 => {
            // hundreds of readings of a place, asked for once more when all are there
            let (w, chain) = ([20, 70, 140, 270, 530][choose(5)] + choose(4), [8, 30, 90][choose(3)]);
            let mut alts: Vec<Vec<MT>> = (1..=w).map(|k| vec![t(&"a".repeat(k))]).collect();
            if chance(1, 2) {
                alts.reverse();
            }
            let mut prods = vec![p("s", vec![vec![n("x"), n("y")], vec![n("c0")]]), p("x", alts), p("y", vec![vec![t("b")]])];
            prods.extend((0..chain).map(|i| p(&format!("c{i}"), vec![if i + 1 < chain { vec![n(&format!("c{}", i + 1))] } else { vec![n("x"), n("y")] }])));
            let k = [w, 1, w / 2, w - 1][choose(4)];
            let phrase = || vec![node("x", vec![leaf(&"a".repeat(k))]), node("y", vec![leaf("b")])];
            let mut far = node(&format!("c{}", chain - 1), phrase());
            for i in (0..chain - 1).rev() {
                far = node(&format!("c{i}"), vec![far]);
            }
            (MG { prods }, vec![node("s", phrase()), node("s", vec![far])])
        }
        6 => {
            // the same phrase at once and at the end of a long chain, among many others
            let (w, chain) = ([0, 30, 130, 450][choose(4)], [20, 90, 300, 700][choose(4)] + choose(9));
            let mut alts = vec![vec![n("big")], vec![n("c0")]];
            alts.extend((0..w).map(|i| vec![n(&format!("d{i}")), t("z")]));
            if chance(1, 2) {
                alts.reverse();
            }
            let mut prods = vec![p("s", alts), p("big", vec![vec![n("a"), t("b")]]), p("a", vec![vec![t("a")]])];
            prods.extend((0..chain).map(|i| p(&format!("c{i}"), vec![vec![n(&if i + 1 < chain { format!("c{}", i + 1) } else { "big".into() })]])));
            prods.extend((0..w).map(|i| p(&format!("d{i}"), vec![vec![t("a")]])));
            let big = node("big", vec![node("a", vec![leaf("a")]), leaf("b")]);
            let mut far = big.clone();
            for i in (0..chain).rev() {
                far = node(&format!("c{i}"), vec![far]);
            }
            (MG { prods }, vec![node("s", vec![big]), node("s", vec![far])])
        }
        0 => {
            // balanced: thousands of leaves, few levels
            let mut prods: Vec<_> = (0..levels).map(|i| p(&format!("x{i}"), vec![vec![n(&format!("x{}", i + 1)), n(&format!("x{}", i + 1))]])).collect();
            prods.push(p(&format!("x{levels}"), vec![vec![t("a")], vec![t("b")], vec![n("u")], vec![n("v")]]));
            prods.push(p("u", vec![vec![t("c")]]));
            prods.push(p("v", vec![vec![t("c")]]));
            let size = 1usize << levels;
            // one leaf (or none) can be read in two ways
            let odd = [0, size / 2, size - 1, size][choose(4)];
            let word = choose(1 << 16);
            let build = |way: &str| {
                let mut row: Vec<Tree> = (0..size)
                    .map(|i| {
                        let l = format!("x{levels}");
                        if i == odd { node(&l, vec![node(way, vec![leaf("c")])]) } else { node(&l, vec![leaf(if (i * 7 + word * (i / 16 + 1)) % 3 == 0 { "a" } else { "b" })]) }
                    })
                    .collect();
                for d in (0..levels).rev() {
                    let mut up = vec![];
                    let mut it = row.into_iter();
                    while let (Some(a), Some(b)) = (it.next(), it.next()) {
                        up.push(node(&format!("x{d}"), vec![a, b]));
                    }
                    row = up;
                }
                row.pop().unwrap()
            };
            let trees = if odd < size { vec![build("u"), build("v")] } else { vec![build("u")] };
            (MG { prods }, trees)
        }
        1 => {
            // hundreds of readings of the same place, one of which goes on
            let w = [33, 66, 130, 260, 300, 520][choose(6)] + choose(4);
            let mut alts: Vec<Vec<MT>> = (1..=w).map(|k| vec![t(&"a".repeat(k))]).collect();
            if chance(1, 2) {
                alts.reverse();
            }
            let k = [w, w - 1, 1, w / 2][choose(4)];
            let mg = MG { prods: vec![p("s", vec![vec![n("x"), n("y")]]), p("x", alts), p("y", vec![vec![t("b")]])] };
            (mg, vec![node("s", vec![node("x", vec![leaf(&"a".repeat(k))]), node("y", vec![leaf("b")])])])
        }
        2 => {
            // the same, all of which go on
            let w = [17, 33, 66, 100, 140][choose(5)] + choose(4);
            let alts: Vec<Vec<MT>> = (1..=w).map(|k| vec![t(&"a".repeat(k))]).collect();
            let m = w + 1;
            let mg = MG { prods: vec![p("s", vec![vec![n("x"), n("x"), n("y")]]), p("x", alts), p("y", vec![vec![t("b")]])] };
            let trees = (1..m).map(|i| node("s", vec![node("x", vec![leaf(&"a".repeat(i))]), node("x", vec![leaf(&"a".repeat(m - i))]), node("y", vec![leaf("b")])])).collect();
            (mg, trees)
        }
        3 => {
            // hundreds of rules waiting for the same name at the same place
            let w = [33, 66, 130, 260, 520][choose(5)] + choose(4);
            let flat = chance(1, 2);
            let mut prods = vec![];
            let suffix = |i: usize| format!("{i};");
            if flat {
                prods.push(p("s", (0..w).map(|i| vec![n("x"), t(&suffix(i))]).collect()));
            } else {
                prods.push(p("s", (0..w).map(|i| vec![n(&format!("r{i}"))]).collect()));
                prods.extend((0..w).map(|i| p(&format!("r{i}"), vec![vec![n("x"), t(&suffix(i))]])));
            }
            prods.push(p("x", vec![vec![t("a")], vec![t("a"), n("x")]]));
            let k = [w - 1, 0, w / 2, w - 2][choose(4)];
            let mut x = node("x", vec![leaf("a")]);
            for _ in 0..choose(3) {
                x = node("x", vec![leaf("a"), x]);
            }
            let inner = vec![x, leaf(&suffix(k))];
            let tree = if flat { node("s", inner) } else { node("s", vec![node(&format!("r{k}"), inner)]) };
            (MG { prods }, vec![tree])
        }
        4 => {
            // very deep
            let depth = [300, 600, 1100, 2100][choose(4)].min(most) + choose(20);
            let wrap = choose(2);
            let mg = MG { prods: vec![p("b", vec![vec![t("("), n("b"), t(")")], vec![t("<"), n("b")], vec![t("[x]")]])] };
            let mut acc = node("b", vec![leaf("[x]")]);
            for i in 0..depth {
                acc = if wrap == 0 || i % 3 > 0 { node("b", vec![leaf("("), acc, leaf(")")]) } else { node("b", vec![leaf("<"), acc]) };
            }
            (mg, vec![acc])
        }
        _ => {
            // very many items of a list
            let len = [300, 600, 1100, 2100][choose(4)].min(most) + choose(20);
            let mg = MG { prods: vec![p("l", vec![vec![n("i")], vec![n("l"), t(","), n("i")]]), p("i", vec![vec![t("x")], vec![t("yy")], vec![t("日")]])] };
            let item = |k: usize| node("i", vec![leaf(["x", "yy", "日"][k % 3])]);
            let word = choose(1 << 10);
            let mut acc = node("l", vec![item(word)]);
            for i in 0..len {
                acc = node("l", vec![acc, leaf(","), item(i * i + word)]);
            }
            (mg, vec![acc])
        }
    }
}
/// Long workload: all its derivations are known by construction.
pub fn long_trees() -> (MG, Vec<Tree>) {
    if chance(1, 6) {
        return express_case();
    }
    let (mg, t) = long_case();
    (mg, vec![t])
}
/// Long, unambiguous workload: the derivation is known by construction.
pub fn long_case() -> (MG, Tree) {
    if chance(1, 4) {
        return huge_case();
    }
    let shape = choose(4);
    let len = if shape == 0 { [20, 40, 60][choose(3)] } else { [40, 80, 120, 200][choose(4)] } + choose(20);
    let mg = MG {
        prods: match shape {
            0 => vec![p("l", vec![vec![n("i")], vec![n("i"), t(","), n("l")]]), p("i", vec![vec![t("x")], vec![t("y")], vec![t("é")]])],
            1 => vec![p("l", vec![vec![n("i")], vec![n("l"), t(","), n("i")]]), p("i", vec![vec![t("x")], vec![t("yy")], vec![t("日")]])],
            2 => vec![p("b", vec![vec![t("("), n("b"), t(")")], vec![t("[x]")]])],
            _ => vec![p("d", vec![vec![t("a"), n("d"), t("b")], vec![t("c"), n("d")], vec![t("")]])],
        },
    };
    let item = |k: usize| Tree::Node("i".into(), vec![match &mg.prods[1].1[k][0] {
        MT::T(s) => Tree::Leaf(s.clone()),
        _ => unreachable!(),
    }]);
    let tree = match shape {
        0 => {
            let mut acc = Tree::Node("l".into(), vec![item(choose(3))]);
            for _ in 0..len {
                acc = Tree::Node("l".into(), vec![item(choose(3)), Tree::Leaf(",".into()), acc]);
            }
            acc
        }
        1 => {
            let mut acc = Tree::Node("l".into(), vec![item(choose(3))]);
            for _ in 0..len {
                acc = Tree::Node("l".into(), vec![acc, Tree::Leaf(",".into()), item(choose(3))]);
            }
            acc
        }
        2 => {
            let mut acc = Tree::Node("b".into(), vec![Tree::Leaf("[x]".into())]);
            for _ in 0..len {
                acc = Tree::Node("b".into(), vec![Tree::Leaf("(".into()), acc, Tree::Leaf(")".into())]);
            }
            acc
        }
        _ => {
            let mut acc = Tree::Node("d".into(), vec![Tree::Leaf("".into())]);
            for _ in 0..len {
                acc = if chance(1, 2) {
                    Tree::Node("d".into(), vec![Tree::Leaf("c".into()), acc])
                } else {
                    Tree::Node("d".into(), vec![Tree::Leaf("a".into()), acc, Tree::Leaf("b".into())])
                };
            }
            acc
        }
    };
    (mg, tree)
}

// ------------------------------------------------------------------ generation workloads
/// Mean number of expansions under uniform choice over first productions; None if it diverges.
pub fn mean_size(g: &MG) -> Option<f64> {
    let mut first: BTreeMap<&str, &Vec<Vec<MT>>> = BTreeMap::new();
    for (l, a) in &g.prods {
        first.entry(l).or_insert(a);
    }
    let mut e: BTreeMap<&str, f64> = first.keys().map(|k| (*k, 0.0)).collect();
    for _ in 0..400 {
        let mut nx = BTreeMap::new();
        let mut worst: f64 = 0.0;
        for (l, alts) in &first {
            let mut s = 1.0;
            for a in alts.iter() {
                for t in a {
                    if let MT::N(m) = t {
                        s += e.get(m.as_str()).copied().unwrap_or(0.0) / alts.len() as f64;
                    }
                }
            }
            worst = worst.max((s - e[l]).abs());
            nx.insert(*l, s);
        }
        e = nx;
        if worst < 1e-6 {
            return Some(e[g.start()]);
        }
        if e.values().any(|x| *x > 1e6) {
            return None;
        }
    }
    None
}
/// Rules the library documents as not generatable: no alternative, or a single empty one.
pub fn has_unchoosable(g: &MG) -> bool {
    g.prods.iter().any(|(_, a)| a.is_empty() || (a.len() == 1 && a[0].is_empty()))
}

/// A grammar whose uniform random walk ends quickly; every name defined and productive.
pub fn walk_case() -> GCase {
    let o = GOpt { undefined: false, cyclic: true, bare_empty: true, extended: true, odd: true, max_names: 5 };
    for _ in 0..8 {
        let c = if chance(1, 4) { GCase::plain(template(), chance(1, 3)) } else { GCase::from_eg(&random_eg(&o), chance(1, 3)) };
        let h = c.mg.productive_first();
        if has_unchoosable(&c.mg) || c.mg.names().iter().any(|n| !h.contains_key(*n)) {
            continue;
        }
        if mean_size(&c.mg).is_some_and(|m| m < 40.0) {
            return c;
        }
    }
    GCase::plain(
        MG { prods: vec![p("dna", vec![vec![n("base")], vec![n("base"), n("dna")]]), p("base", vec![vec![t("A")], vec![t("C")], vec![t("G")], vec![t("T")]])] },
        false,
    )
}
/// Grammar for adversarial generation: anything with defined names (dead branches if asked for).
/// Hundreds of rules whose ends become known one after the other, in either order; perhaps one of
/// them is dead, perhaps the start itself.
pub fn many_rules() -> GCase {
    count(P_STRETCH);
    let k = [140, 260, 270, 530, 1030][weighted(&[2, 2, 2, 2, 1])] + choose(5);
    let name = |i: usize| format!("k{i}");
    let mut prods: Vec<_> = (0..k)
        .map(|i| {
            let end = if i + 1 < k { n(&name(i + 1)) } else { t("z") };
            let mut alts = vec![if i % 7 == 3 { vec![t("x"), end] } else { vec![end] }];
            if i % 11 == 5 {
                alts.push(vec![t("e")]);
            }
            p(&name(i), alts)
        })
        .collect();
    // how the many ends become known: one by one, or at once with only a few to follow
    if chance(1, 2) {
        let keep = range(1, 60);
        for (i, q) in prods.iter_mut().enumerate().skip(keep) {
            q.1 = vec![vec![t(&format!("t{i}"))]];
        }
    }
    if chance(1, 2) {
        prods.reverse();
    }
    match choose(4) {
        0 => prods.push(p("dead", vec![vec![t("x"), n("dead")]])),
        1 => {
            // a dead end next to the last rule
            let last = prods.iter_mut().find(|q| q.0 == name(k - 1)).unwrap();
            last.1.push(vec![n("dead")]);
            prods.push(p("dead", vec![vec![t("x"), n("dead")]]));
        }
        _ => {}
    }
    let start = match choose(4) {
        0 => p("s", vec![vec![t("x"), n("s")], vec![n("s"), n(&name(0))]]),
        _ => p("s", vec![vec![n(&name(0))], vec![t("("), n("s"), t(")")]]),
    };
    prods.insert(0, start);
    GCase::plain(MG { prods }, false)
}
pub fn gen_case(dead: bool) -> GCase {
    let o = GOpt { undefined: false, cyclic: true, bare_empty: true, extended: true, odd: true, max_names: 5 };
    for _ in 0..8 {
        let c = if chance(1, 4) { GCase::plain(template(), chance(1, 3)) } else { GCase::from_eg(&random_eg(&o), chance(1, 3)) };
        if has_unchoosable(&c.mg) {
            continue;
        }
        let h = c.mg.productive_first();
        let alive = c.mg.names().iter().all(|n| h.contains_key(*n));
        if alive != dead {
            return c;
        }
        if dead {
            // graft a dead end onto a live grammar
            let mut mg = c.mg.clone();
            let l = mg.start().to_string();
            match choose(5) {
                4 => {
                    // the dead name comes late in a long alternative
                    let k = [7, 12, 24, 40, 90][choose(5)];
                    let mut a: Vec<MT> = (0..k).map(|i| if i % 4 == 3 { t("x") } else { n(&format!("q{i}")) }).collect();
                    for i in 0..k {
                        mg.prods.push(p(&format!("q{i}"), vec![vec![t("a")], vec![t("")]]));
                    }
                    a.push(n("dead"));
                    match choose(4) {
                        0 => mg.prods[0].1.push(a),
                        1 => {
                            mg.prods[0].1.push(vec![n("mid")]);
                            mg.prods.push(p("mid", vec![a]));
                        }
                        2 => mg.prods[0].1 = vec![a],
                        _ => {
                            // every alternative of a wide rule ends in it
                            mg.prods[0].1 = (0..[3, 20, 70][choose(3)]).map(|i| vec![t("w"), n(if i % 5 == 4 { "q0" } else { "q1" }), n("dead")]).collect();
                            mg.prods[0].1.push(a);
                        }
                    }
                    mg.prods.push(p("dead", vec![vec![t("x"), n("dead")]]));
                }
                0 => {
                    mg.prods[0].1.push(vec![n("dead")]);
                    mg.prods.push(p("dead", vec![vec![n("dead")], vec![t("x"), n("dead")]]));
                }
                1 => {
                    mg.prods[0].1.push(vec![t("x"), n("dead"), t("y")]);
                    mg.prods.push(p("dead", vec![vec![n("dead2")]]));
                    mg.prods.push(p("dead2", vec![vec![t("z"), n("dead")], vec![n("dead2"), n("dead2")]]));
                }
                2 => {
                    let k = choose(mg.prods.len());
                    mg.prods[k].1.insert(0, vec![n("dead")]);
                    mg.prods.push(p("dead", vec![vec![n("dead"), n(&l)]]));
                }
                _ => {
                    mg.prods[0].1.push(vec![n("dead")]);
                    mg.prods.push(p("dead", vec![vec![n("dead")]]));
                    mg.prods.push(p("dead", vec![vec![t("late")]]));
                }
            }
            return GCase::plain(mg, false);
        }
    }
    walk_case()
}
/// Many independent coin flips: sentences from distinct random streams practically never coincide.
pub fn coin_grammar(bits: usize) -> MG {
    let mut prods = vec![p("s", vec![(0..bits).map(|_| n("c")).collect()])];
    prods.push(p("c", vec![vec![t("0")], vec![t("1")]]));
    MG { prods }
}
