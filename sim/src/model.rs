//! Small executable reference model, written without looking at how the library does it:
//! context-free grammars as lists of alternatives, span tables for recognition, recursive
//! enumeration of derivations, a decision-driven generator and a straightforward renderer.

use bnf::{Expression, Grammar, ParseTree, ParseTreeNode, Production, Term};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MT {
    T(String),
    N(String),
}

/// Plain grammar: ordered productions, each a name and its alternatives.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct MG {
    pub prods: Vec<(String, Vec<Vec<MT>>)>,
}

impl MG {
    pub fn to_parts(&self) -> Grammar {
        Grammar::from_parts(
            self.prods
                .iter()
                .map(|(l, alts)| {
                    Production::from_parts(
                        Term::Nonterminal(l.clone()),
                        alts.iter().map(|a| Expression::from_parts(a.iter().map(to_term).collect())).collect(),
                    )
                })
                .collect(),
        )
    }
    pub fn of(g: &Grammar) -> MG {
        let name = |t: &Term| match t {
            Term::Nonterminal(s) => s.clone(),
            Term::Terminal(s) => format!("\u{0}terminal:{s}"),
        };
        MG {
            prods: g
                .productions_iter()
                .map(|p| {
                    (
                        name(&p.lhs),
                        p.rhs_iter()
                            .map(|e| {
                                e.terms_iter()
                                    .map(|t| match t {
                                        Term::Terminal(s) => MT::T(s.clone()),
                                        Term::Nonterminal(s) => MT::N(s.clone()),
                                    })
                                    .collect()
                            })
                            .collect(),
                    )
                })
                .collect(),
        }
    }
    pub fn start(&self) -> &str {
        &self.prods[0].0
    }
    pub fn names(&self) -> BTreeSet<&str> {
        self.prods.iter().map(|p| p.0.as_str()).collect()
    }
    pub fn referenced(&self) -> BTreeSet<&str> {
        self.prods
            .iter()
            .flat_map(|p| p.1.iter().flatten())
            .filter_map(|t| match t {
                MT::N(n) => Some(n.as_str()),
                _ => None,
            })
            .collect()
    }
    pub fn undefined(&self) -> BTreeSet<&str> {
        let n = self.names();
        self.referenced().into_iter().filter(|r| !n.contains(r)).collect()
    }
    /// Names with a production of the given name (all of them), flattened.
    pub fn alts_of<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Vec<MT>> + 'a {
        self.prods.iter().filter(move |p| p.0 == name).flat_map(|p| p.1.iter())
    }
    pub fn first(&self, name: &str) -> Option<&(String, Vec<Vec<MT>>)> {
        self.prods.iter().find(|p| p.0 == name)
    }
    pub fn nullable(&self) -> BTreeSet<String> {
        let mut n = BTreeSet::new();
        loop {
            let before = n.len();
            for (l, alts) in &self.prods {
                if alts.iter().any(|a| {
                    a.iter().all(|t| match t {
                        MT::T(s) => s.is_empty(),
                        MT::N(x) => n.contains(x),
                    })
                }) {
                    n.insert(l.clone());
                }
            }
            if n.len() == before {
                return n;
            }
        }
    }
    /// Does some name derive itself (through unit steps padded with empty parts)?
    pub fn cyclic(&self) -> bool {
        let nul = self.nullable();
        let empty = |t: &MT| match t {
            MT::T(s) => s.is_empty(),
            MT::N(x) => nul.contains(x),
        };
        let mut edges: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
        for (l, alts) in &self.prods {
            for a in alts {
                for (i, t) in a.iter().enumerate() {
                    if let MT::N(m) = t
                        && a.iter().enumerate().all(|(j, u)| j == i || empty(u))
                    {
                        edges.entry(l).or_default().insert(m);
                    }
                }
            }
        }
        has_cycle(&edges)
    }
    pub fn left_recursive(&self) -> bool {
        let nul = self.nullable();
        let mut edges: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
        for (l, alts) in &self.prods {
            for a in alts {
                for t in a {
                    match t {
                        MT::N(m) => {
                            edges.entry(l).or_default().insert(m);
                            if !nul.contains(m) {
                                break;
                            }
                        }
                        MT::T(s) if s.is_empty() => {}
                        _ => break,
                    }
                }
            }
        }
        has_cycle(&edges)
    }
    /// Names that derive a finite sentence using the first production of each name
    /// (the rules generation uses).
    pub fn productive_first(&self) -> BTreeMap<String, usize> {
        // value: minimal derivation height
        let mut h: BTreeMap<String, usize> = BTreeMap::new();
        for round in 1..=self.prods.len() + 1 {
            let prev = h.clone();
            let mut seen = BTreeSet::new();
            for (l, alts) in &self.prods {
                if !seen.insert(l) || h.contains_key(l) {
                    continue;
                }
                if alts.iter().any(|a| alt_height(a, &prev).is_some()) {
                    h.insert(l.clone(), round);
                }
            }
        }
        h
    }
    /// Names that derive a finite sentence using all productions.
    pub fn productive_all(&self) -> BTreeSet<String> {
        let mut n: BTreeSet<String> = BTreeSet::new();
        loop {
            let before = n.len();
            for (l, alts) in &self.prods {
                if alts.iter().any(|a| {
                    a.iter().all(|t| match t {
                        MT::T(_) => true,
                        MT::N(x) => n.contains(x),
                    })
                }) {
                    n.insert(l.clone());
                }
            }
            if n.len() == before {
                return n;
            }
        }
    }
}

pub fn alt_height(a: &[MT], h: &BTreeMap<String, usize>) -> Option<usize> {
    let mut m = 0;
    for t in a {
        if let MT::N(x) = t {
            m = m.max(*h.get(x)?);
        }
    }
    Some(m)
}

fn has_cycle(edges: &BTreeMap<&str, BTreeSet<&str>>) -> bool {
    // repeatedly drop names without outgoing edges to remaining names
    let mut live: BTreeSet<&str> = edges.keys().copied().collect();
    loop {
        let dead: Vec<&str> =
            live.iter().copied().filter(|n| !edges[n].iter().any(|m| live.contains(m))).collect();
        if dead.is_empty() {
            return !live.is_empty();
        }
        for d in dead {
            live.remove(d);
        }
    }
}

pub fn to_term(t: &MT) -> Term {
    match t {
        MT::T(s) => Term::Terminal(s.clone()),
        MT::N(s) => Term::Nonterminal(s.clone()),
    }
}

// ------------------------------------------------------------------ trees
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Tree {
    Leaf(String),
    Node(String, Vec<Tree>),
}
impl Tree {
    pub fn canon(&self) -> String {
        let mut s = String::new();
        self.w(&mut s);
        s
    }
    fn w(&self, o: &mut String) {
        match self {
            Tree::Leaf(t) => {
                let _ = write!(o, "{t:?}");
            }
            Tree::Node(n, c) => {
                let _ = write!(o, "({n}");
                for x in c {
                    o.push(' ');
                    x.w(o);
                }
                o.push(')');
            }
        }
    }
    /// Nodes and leaves.
    pub fn size(&self) -> usize {
        match self {
            Tree::Leaf(_) => 1,
            Tree::Node(_, c) => 1 + c.iter().map(|x| x.size()).sum::<usize>(),
        }
    }
    pub fn text(&self, o: &mut String) {
        match self {
            Tree::Leaf(t) => o.push_str(t),
            Tree::Node(_, c) => c.iter().for_each(|x| x.text(o)),
        }
    }
}

/// Read a library tree through its public API. Names in `anon` are shown as `#`.
pub fn tree_of(t: &ParseTree, anon: &dyn Fn(&str) -> bool) -> Tree {
    let name = match t.lhs {
        Term::Nonterminal(s) if anon(s) => "#".to_string(),
        Term::Nonterminal(s) => s.clone(),
        Term::Terminal(s) => format!("\u{0}terminal:{s}"),
    };
    Tree::Node(
        name,
        t.rhs_iter()
            .map(|n| match n {
                ParseTreeNode::Terminal(s) => Tree::Leaf(s.to_string()),
                ParseTreeNode::Nonterminal(p) => tree_of(p, anon),
            })
            .collect(),
    )
}

// ------------------------------------------------------------------ derivations of one input
pub struct Deriv<'a> {
    input: &'a str,
    n: usize,
    ids: HashMap<&'a str, usize>,
    names: Vec<&'a str>,
    /// flattened: (lhs id, rhs)
    prods: Vec<(usize, Vec<Sym<'a>>)>,
    by: Vec<Vec<usize>>,
    /// ends[name][start] = bit set of end positions
    ends: Vec<Vec<u128>>,
    memo: HashMap<(usize, usize, usize), u64>,
    smemo: HashMap<(usize, usize, usize, usize), u64>,
}
#[derive(Clone, Copy)]
enum Sym<'a> {
    T(&'a str),
    N(usize),
    /// undefined name: derives nothing
    U,
}

pub const MAX_INPUT: usize = 120;

impl<'a> Deriv<'a> {
    pub fn new(g: &'a MG, input: &'a str) -> Self {
        assert!(input.len() <= MAX_INPUT);
        let mut ids = HashMap::new();
        let mut names = vec![];
        for (l, _) in &g.prods {
            ids.entry(l.as_str()).or_insert_with(|| {
                names.push(l.as_str());
                names.len() - 1
            });
        }
        let mut prods = vec![];
        let mut by = vec![vec![]; names.len()];
        for (l, alts) in &g.prods {
            let id = ids[l.as_str()];
            for a in alts {
                by[id].push(prods.len());
                prods.push((
                    id,
                    a.iter()
                        .map(|t| match t {
                            MT::T(s) => Sym::T(s),
                            MT::N(x) => ids.get(x.as_str()).map_or(Sym::U, |i| Sym::N(*i)),
                        })
                        .collect::<Vec<_>>(),
                ));
            }
        }
        let n = input.len();
        let mut d = Deriv { input, n, ends: vec![vec![0; n + 1]; names.len()], ids, names, prods, by, memo: HashMap::new(), smemo: HashMap::new() };
        loop {
            let mut changed = false;
            for p in 0..d.prods.len() {
                for i in 0..=n {
                    let e = d.reach(p, 0, 1u128 << i);
                    let l = d.prods[p].0;
                    if d.ends[l][i] | e != d.ends[l][i] {
                        d.ends[l][i] |= e;
                        changed = true;
                    }
                }
            }
            if !changed {
                return d;
            }
        }
    }
    /// End positions reachable by terms k.. of production p from the given start set.
    fn reach(&self, p: usize, k: usize, from: u128) -> u128 {
        let mut s = from;
        for t in &self.prods[p].1[k..] {
            let mut nx = 0u128;
            let mut r = s;
            while r != 0 {
                let m = r.trailing_zeros() as usize;
                r &= r - 1;
                match t {
                    Sym::T(x) => {
                        if self.input.as_bytes()[m..].starts_with(x.as_bytes()) {
                            nx |= 1u128 << (m + x.len());
                        }
                    }
                    Sym::N(a) => nx |= self.ends[*a][m],
                    Sym::U => {}
                }
            }
            s = nx;
            if s == 0 {
                break;
            }
        }
        s
    }
    pub fn member(&self, start: &str) -> bool {
        self.ids.get(start).is_some_and(|i| self.ends[*i][0] >> self.n & 1 == 1)
    }
    /// Number of derivations of the whole input (saturating). Only for non-cyclic grammars.
    pub fn count(&mut self, start: &str) -> u64 {
        match self.ids.get(start) {
            Some(i) => self.cnt(*i, 0, self.n),
            None => 0,
        }
    }
    fn cnt(&mut self, a: usize, i: usize, j: usize) -> u64 {
        if self.ends[a][i] >> j & 1 == 0 {
            return 0;
        }
        if let Some(c) = self.memo.get(&(a, i, j)) {
            return *c;
        }
        let mut c = 0u64;
        for pi in 0..self.by[a].len() {
            let p = self.by[a][pi];
            c = c.saturating_add(self.seq(p, 0, i, j));
        }
        self.memo.insert((a, i, j), c);
        c
    }
    fn seq(&mut self, p: usize, k: usize, i: usize, j: usize) -> u64 {
        if k == self.prods[p].1.len() {
            return (i == j) as u64;
        }
        match self.prods[p].1[k] {
            Sym::U => 0,
            Sym::T(x) => {
                if self.input.as_bytes()[i..].starts_with(x.as_bytes()) && i + x.len() <= j {
                    self.seq(p, k + 1, i + x.len(), j)
                } else {
                    0
                }
            }
            Sym::N(a) => {
                if let Some(c) = self.smemo.get(&(p, k, i, j)) {
                    return *c;
                }
                let mut c = 0u64;
                for m in i..=j {
                    if self.ends[a][i] >> m & 1 == 1 && self.reach(p, k + 1, 1u128 << m) >> j & 1 == 1 {
                        let r = self.seq(p, k + 1, m, j);
                        if r > 0 {
                            c = c.saturating_add(self.cnt(a, i, m).saturating_mul(r));
                        }
                    }
                }
                self.smemo.insert((p, k, i, j), c);
                c
            }
        }
    }
    /// Upper bound on the partial derivations any top-down chart over this input can hold
    /// (used to keep the workload small, not as an oracle). Non-cyclic grammars only.
    pub fn work(&mut self) -> u64 {
        let mut total = 0u64;
        for p in 0..self.prods.len() {
            for i in 0..=self.n {
                // ways[j] = derivations of the first k terms over i..j
                let mut ways = vec![0u64; self.n + 1];
                ways[i] = 1;
                for k in 0..=self.prods[p].1.len() {
                    total = total.saturating_add(ways.iter().fold(0u64, |a, b| a.saturating_add(*b)));
                    if total > 1_000_000 {
                        return total;
                    }
                    if k == self.prods[p].1.len() {
                        break;
                    }
                    let mut nx = vec![0u64; self.n + 1];
                    for m in 0..=self.n {
                        if ways[m] == 0 {
                            continue;
                        }
                        match self.prods[p].1[k] {
                            Sym::U => {}
                            Sym::T(x) => {
                                if self.input.as_bytes()[m..].starts_with(x.as_bytes()) {
                                    nx[m + x.len()] = nx[m + x.len()].saturating_add(ways[m]);
                                }
                            }
                            Sym::N(a) => {
                                for e in m..=self.n {
                                    if self.ends[a][m] >> e & 1 == 1 {
                                        let c = self.cnt(a, m, e);
                                        nx[e] = nx[e].saturating_add(ways[m].saturating_mul(c));
                                    }
                                }
                            }
                        }
                    }
                    ways = nx;
                }
            }
        }
        total
    }
    /// Like `work`, counting only partial derivations made of parts at most `height` levels high
    /// (so it is finite for cyclic grammars too); `cap` or more is reported as `cap`.
    pub fn work_up_to(&self, height: usize, cap: u64) -> u64 {
        let (names, n) = (self.by.len(), self.n + 1);
        // c[a][i][j]: derivations of i..j from a
        let mut c = vec![0u64; names * n * n];
        let mut total = 0u64;
        for _ in 0..height {
            let mut nc = vec![0u64; names * n * n];
            total = 0;
            for (l, rhs) in &self.prods {
                for i in 0..n {
                    let mut ways = vec![0u64; n];
                    ways[i] = 1;
                    for k in 0..=rhs.len() {
                        total = total.saturating_add(ways.iter().fold(0u64, |a, b| a.saturating_add(*b)));
                        if total >= cap {
                            return cap;
                        }
                        if k == rhs.len() {
                            break;
                        }
                        let mut nx = vec![0u64; n];
                        for m in (0..n).filter(|m| ways[*m] > 0) {
                            match rhs[k] {
                                Sym::U => {}
                                Sym::T(x) => {
                                    if self.input.as_bytes()[m..].starts_with(x.as_bytes()) {
                                        nx[m + x.len()] = nx[m + x.len()].saturating_add(ways[m]);
                                    }
                                }
                                Sym::N(a) => {
                                    for e in m..n {
                                        nx[e] = nx[e].saturating_add(ways[m].saturating_mul(c[(a * n + m) * n + e]));
                                    }
                                }
                            }
                        }
                        ways = nx;
                    }
                    for e in i..n {
                        let x = &mut nc[(l * n + i) * n + e];
                        *x = x.saturating_add(ways[e]);
                    }
                }
            }
            c = nc;
        }
        total
    }
    /// All derivations (call only when `count` is small).
    pub fn trees(&mut self, start: &str) -> Vec<Tree> {
        match self.ids.get(start) {
            Some(i) => self.tr(*i, 0, self.n),
            None => vec![],
        }
    }
    fn tr(&mut self, a: usize, i: usize, j: usize) -> Vec<Tree> {
        let mut out = vec![];
        if self.cnt(a, i, j) == 0 {
            return out;
        }
        let name = if self.names[a].starts_with('#') { "#" } else { self.names[a] };
        for pi in 0..self.by[a].len() {
            let p = self.by[a][pi];
            for kids in self.trs(p, 0, i, j) {
                out.push(Tree::Node(name.to_string(), kids));
            }
        }
        out
    }
    fn trs(&mut self, p: usize, k: usize, i: usize, j: usize) -> Vec<Vec<Tree>> {
        if k == self.prods[p].1.len() {
            return if i == j { vec![vec![]] } else { vec![] };
        }
        match self.prods[p].1[k] {
            Sym::U => vec![],
            Sym::T(x) => {
                if self.input.as_bytes()[i..].starts_with(x.as_bytes()) && i + x.len() <= j {
                    let mut r = self.trs(p, k + 1, i + x.len(), j);
                    for v in &mut r {
                        v.insert(0, Tree::Leaf(x.to_string()));
                    }
                    r
                } else {
                    vec![]
                }
            }
            Sym::N(a) => {
                let mut out = vec![];
                for m in i..=j {
                    if self.ends[a][i] >> m & 1 == 1 && self.reach(p, k + 1, 1u128 << m) >> j & 1 == 1 {
                        let rest = self.trs(p, k + 1, m, j);
                        if rest.is_empty() {
                            continue;
                        }
                        let heads = self.tr(a, i, m);
                        for h in &heads {
                            for r in &rest {
                                let mut v = Vec::with_capacity(r.len() + 1);
                                v.push(h.clone());
                                v.extend(r.iter().cloned());
                                out.push(v);
                            }
                        }
                    }
                }
                out
            }
        }
    }
}

/// Derivations of the whole input in which no name derives itself over the same stretch of text more
/// than `turns` times along a path. None if there are more than `cap` or it takes too long to tell.
pub fn turned(d: &Deriv, start: &str, turns: usize, cap: usize) -> Option<Vec<Tree>> {
    struct W<'a, 'b> {
        d: &'b Deriv<'a>,
        path: HashMap<(usize, usize, usize), usize>,
        turns: usize,
        cap: usize,
        work: usize,
    }
    impl W<'_, '_> {
        fn node(&mut self, a: usize, i: usize, j: usize) -> Option<Vec<Tree>> {
            if self.d.ends[a][i] >> j & 1 == 0 {
                return Some(vec![]);
            }
            self.work += 1;
            if self.work > 20_000 {
                return None;
            }
            let k = self.path.entry((a, i, j)).or_default();
            if *k > self.turns {
                return Some(vec![]);
            }
            *k += 1;
            let mut out = vec![];
            for pi in 0..self.d.by[a].len() {
                let p = self.d.by[a][pi];
                for kids in self.seq(p, 0, i, j)? {
                    out.push(Tree::Node(self.d.names[a].to_string(), kids));
                }
            }
            *self.path.get_mut(&(a, i, j)).unwrap() -= 1;
            (out.len() <= self.cap).then_some(out)
        }
        fn seq(&mut self, p: usize, k: usize, i: usize, j: usize) -> Option<Vec<Vec<Tree>>> {
            if k == self.d.prods[p].1.len() {
                return Some(if i == j { vec![vec![]] } else { vec![] });
            }
            let mut out = vec![];
            match self.d.prods[p].1[k] {
                Sym::U => {}
                Sym::T(x) => {
                    if self.d.input.as_bytes()[i..].starts_with(x.as_bytes()) && i + x.len() <= j {
                        out = self.seq(p, k + 1, i + x.len(), j)?;
                        out.iter_mut().for_each(|v| v.insert(0, Tree::Leaf(x.to_string())));
                    }
                }
                Sym::N(a) => {
                    for m in i..=j {
                        if self.d.ends[a][i] >> m & 1 == 1 && self.d.reach(p, k + 1, 1u128 << m) >> j & 1 == 1 {
                            let rest = self.seq(p, k + 1, m, j)?;
                            if rest.is_empty() {
                                continue;
                            }
                            for h in self.node(a, i, m)? {
                                for r in &rest {
                                    let mut v = vec![h.clone()];
                                    v.extend(r.iter().cloned());
                                    out.push(v);
                                }
                            }
                        }
                    }
                }
            }
            (out.len() <= self.cap).then_some(out)
        }
    }
    let Some(a) = d.ids.get(start) else { return Some(vec![]) };
    W { d, path: HashMap::new(), turns, cap, work: 0 }.node(*a, 0, d.n)
}

/// How many derivations look like this tree (identical alternatives written more than once make
/// several); 0 = the tree is not a derivation of the grammar. Anonymous names are `#...`.
pub fn multiplicity(g: &MG, t: &Tree) -> u64 {
    fn node(g: &MG, name: &str, kids: &[Tree]) -> u64 {
        let mut total = 0u64;
        for (l, alts) in &g.prods {
            if l != name {
                continue;
            }
            for a in alts {
                if a.len() != kids.len() {
                    continue;
                }
                let mut m = 1u64;
                for (t, k) in a.iter().zip(kids) {
                    m = m.saturating_mul(match (t, k) {
                        (MT::T(s), Tree::Leaf(x)) => (s == x) as u64,
                        (MT::N(s), Tree::Node(n, kk)) => {
                            if s == n || (n == "#" && s.starts_with('#')) { node(g, s, kk) } else { 0 }
                        }
                        _ => 0,
                    });
                    if m == 0 {
                        break;
                    }
                }
                total = total.saturating_add(m);
            }
        }
        total
    }
    match t {
        Tree::Leaf(_) => 0,
        Tree::Node(n, k) => {
            if n == "#" {
                0
            } else {
                node(g, n, k)
            }
        }
    }
}

// ------------------------------------------------------------------ renderings
pub fn quote(s: &str) -> String {
    if s.contains('\'') { format!("\"{s}\"") } else { format!("'{s}'") }
}
pub fn render_term(t: &MT) -> String {
    match t {
        MT::T(s) => quote(s),
        MT::N(s) => format!("<{s}>"),
    }
}
pub fn render_expr(e: &[MT]) -> String {
    e.iter().map(render_term).collect::<Vec<_>>().join(" ")
}
pub fn render_prod(l: &str, alts: &[Vec<MT>]) -> String {
    format!("<{l}> ::= {}", alts.iter().map(|a| render_expr(a)).collect::<Vec<_>>().join(" | "))
}
pub fn render_grammar(g: &MG) -> String {
    let mut s = g.prods.iter().map(|(l, a)| render_prod(l, a)).collect::<Vec<_>>().join("\n");
    s.push('\n');
    s
}
/// The indented tree drawing: every node once, in order, at its depth.
pub fn render_tree(t: &Tree) -> String {
    fn go(t: &Tree, prefix: &str, lead: &str, o: &mut String) {
        match t {
            Tree::Leaf(s) => {
                let _ = writeln!(o, "{prefix}{lead}\"{s}\"");
            }
            Tree::Node(n, kids) => {
                let _ = write!(o, "{prefix}{lead}<{n}> ::=");
                for k in kids {
                    match k {
                        Tree::Leaf(s) => {
                            let _ = write!(o, " \"{s}\"");
                        }
                        Tree::Node(m, _) => {
                            let _ = write!(o, " <{m}>");
                        }
                    }
                }
                o.push('\n');
                let below = match lead {
                    "" => prefix.to_string(),
                    "├── " => format!("{prefix}│   "),
                    _ => format!("{prefix}    "),
                };
                for (i, k) in kids.iter().enumerate() {
                    go(k, &below, if i + 1 == kids.len() { "└── " } else { "├── " }, o);
                }
            }
        }
    }
    let mut o = String::new();
    go(t, "", "", &mut o);
    o
}
pub fn escape_label(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if "\"&#<>[\\];\n\r".contains(c) {
            let _ = write!(o, "#{};", c as u32);
        } else {
            o.push(c);
        }
    }
    o
}
pub fn render_mermaid(t: &Tree) -> String {
    fn go(t: &Tree, me: usize, next: &mut usize, o: &mut String) {
        if let Tree::Node(n, kids) = t {
            for k in kids {
                *next += 1;
                let id = *next;
                let label = match k {
                    Tree::Leaf(s) => s,
                    Tree::Node(m, _) => m,
                };
                let _ = writeln!(o, "{me}[\"{}\"] --> {id}[\"{}\"]", escape_label(n), escape_label(label));
                go(k, id, next, o);
            }
        }
    }
    let mut o = String::from("flowchart TD\n");
    let mut next = 0;
    go(t, 0, &mut next, &mut o);
    o
}
