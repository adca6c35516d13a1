//! The library's generic entry points, instantiated here so that they are compiled with the same
//! preemption instrumentation as the library itself (see ../instrument.sh).

use bnf::rand::rngs::StdRng;
use bnf::{ABNF, BNF, Error, Expression, GenerationStrategy, Grammar, Production};

struct D<'a>(&'a mut dyn GenerationStrategy);
impl GenerationStrategy for D<'_> {
    fn choose<'p>(&mut self, production: &'p Production, depth: usize) -> Option<&'p Expression> {
        self.0.choose(production, depth)
    }
}
type Verdict<'a> = &'a dyn Fn(&str, &str) -> bool;

#[inline(never)]
pub fn by_strategy(g: &Grammar, s: &mut dyn GenerationStrategy) -> Result<String, Error> {
    g.generate_seeded_with_strategy(&mut D(s))
}
#[inline(never)]
pub fn by_strategy_callback(g: &Grammar, f: Verdict, s: &mut dyn GenerationStrategy) -> Result<String, Error> {
    g.generate_seeded_callback_with_strategy(|a, b| f(a, b), &mut D(s))
}
#[inline(never)]
pub fn seeded_callback(g: &Grammar, rng: &mut StdRng, f: Verdict) -> Result<String, Error> {
    g.generate_seeded_callback(rng, |a, b| f(a, b))
}
#[inline(never)]
pub fn callback(g: &Grammar, f: Verdict) -> Result<String, Error> {
    g.generate_callback(|a, b| f(a, b))
}
#[inline(never)]
pub fn read_bnf(t: &str) -> Result<Grammar, Error> {
    Grammar::parse_from::<BNF>(t)
}
#[inline(never)]
pub fn read_abnf(t: &str) -> Result<Grammar, Error> {
    Grammar::parse_from::<ABNF>(t)
}
#[inline(never)]
pub fn to_json(g: &Grammar) -> Result<String, serde_json::Error> {
    serde_json::to_string(g)
}
#[inline(never)]
pub fn from_json(s: &str) -> Result<Grammar, serde_json::Error> {
    serde_json::from_str(s)
}
#[inline(never)]
pub fn json_to(w: &mut dyn std::io::Write, pretty: bool, g: &Grammar) -> Result<(), serde_json::Error> {
    if pretty { serde_json::to_writer_pretty(w, g) } else { serde_json::to_writer(w, g) }
}
