//! C12: saving and loading grammars on a simulated disk that short-writes, interrupts, fills up,
//! crashes and rots.

use super::common::*;
use crate::env::{harness, sim};
use crate::r#gen::*;
use crate::model::*;
use crate::run::*;
use crate::sched;
use crate::{check, ev, violate};
use bnf::{Expression, Grammar, Production, Term};
use std::io::{self, Read, Write};

// ------------------------------------------------------------------ the disk
/// One file. Bytes written sit in the cache until synced; a crash keeps only durable bytes plus
/// whatever blocks happened to be written back.
#[derive(Default)]
struct File {
    durable: Vec<u8>,
    cache: Vec<u8>,
}
#[derive(Clone, Copy, Debug)]
struct WPlan {
    short: usize,
    intr_every: usize,
    /// writes crossing this many bytes fail (full disk, device error)
    full_at: usize,
    zero: bool,
    /// the machine stops when this many bytes were accepted
    crash_at: usize,
}
struct Writer<'a> {
    f: &'a mut File,
    p: WPlan,
    calls: usize,
    failed: bool,
    crashed: bool,
}
impl Write for Writer<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        sched::yield_point();
        harness(|| {
            if self.failed || self.crashed || b.is_empty() {
                return if b.is_empty() { Ok(0) } else { Err(io::Error::other("device gone")) };
            }
            self.calls += 1;
            if self.p.intr_every > 0 && self.calls % (self.p.intr_every + 1) == 1 {
                count(F_EINTR);
                return Err(io::ErrorKind::Interrupted.into());
            }
            let mut n = b.len();
            if self.p.short > 0 && n > self.p.short {
                n = self.p.short;
                count(F_SHORT_WRITE);
            }
            let at = self.f.cache.len();
            if at + n > self.p.crash_at {
                n = self.p.crash_at - at;
                self.f.cache.extend_from_slice(&b[..n]);
                self.crashed = true;
                return Err(io::Error::other("machine stopped"));
            }
            if at + n > self.p.full_at {
                n = self.p.full_at - at;
                if n == 0 {
                    self.failed = true;
                    count(F_IO_ERR);
                    return if self.p.zero { Ok(0) } else { Err(io::ErrorKind::StorageFull.into()) };
                }
            }
            self.f.cache.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        harness(|| if self.failed || self.crashed { Err(io::Error::other("device gone")) } else { Ok(()) })
    }
}
#[derive(Clone, Copy, Debug)]
struct RPlan {
    chunk: usize,
    intr_every: usize,
    err_at: usize,
}
struct Reader<'a> {
    d: &'a [u8],
    at: usize,
    p: RPlan,
    calls: usize,
    failed: bool,
}
impl Read for Reader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        sched::yield_point();
        harness(|| {
            self.calls += 1;
            if self.p.intr_every > 0 && self.calls % (self.p.intr_every + 1) == 1 {
                count(F_EINTR);
                return Err(io::ErrorKind::Interrupted.into());
            }
            if self.at >= self.p.err_at {
                self.failed = true;
                count(F_IO_ERR);
                return Err(io::Error::other("unreadable sector"));
            }
            let left = self.d.len() - self.at;
            let mut n = left.min(b.len());
            if self.p.chunk > 0 && n > self.p.chunk {
                n = self.p.chunk;
                count(F_SHORT_READ);
            }
            b[..n].copy_from_slice(&self.d[self.at..self.at + n]);
            self.at += n;
            Ok(n)
        })
    }
}

// ------------------------------------------------------------------ load and save
fn load_json(d: &[u8], p: RPlan, via: usize) -> (Result<Grammar, String>, bool) {
    count(P_RELOAD);
    let mut r = Reader { d, at: 0, p, calls: 0, failed: false };
    let g = must("loading a stored grammar", || match via {
        0 => serde_json::from_reader::<_, Grammar>(&mut r).map_err(|e| e.to_string()),
        1 => serde_json::from_reader::<_, Grammar>(io::BufReader::with_capacity(16, &mut r)).map_err(|e| e.to_string()),
        2 => serde_json::from_slice::<Grammar>(d).map_err(|e| e.to_string()),
        3 => match std::str::from_utf8(d) {
            Ok(s) => serde_json::from_str::<Grammar>(s).map_err(|e| e.to_string()),
            Err(e) => Err(e.to_string()),
        },
        _ => serde_json::from_slice::<serde_json::Value>(d).and_then(serde_json::from_value::<Grammar>).map_err(|e| e.to_string()),
    });
    (g, r.failed)
}
const CLEAN: RPlan = RPlan { chunk: 0, intr_every: 0, err_at: usize::MAX };
fn draw_rplan(len: usize) -> RPlan {
    RPlan {
        chunk: if chance(1, 2) { range(1, 9) } else { 0 },
        intr_every: if chance(1, 2) { range(1, 4) } else { 0 },
        err_at: if chance(1, 6) { choose(len + 1) } else { usize::MAX },
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Json,
    Pretty,
    Text,
}
enum Saved {
    Acked,
    Failed,
    Crashed,
}
fn save(g: &Grammar, form: Form, f: &mut File, p: WPlan, buffered: bool) -> Saved {
    f.cache.clear();
    let mut w = Writer { f, p, calls: 0, failed: false, crashed: false };
    let ok = must("saving a grammar", || {
        if buffered {
            let mut b = io::BufWriter::with_capacity(24, &mut w);
            let r = write_form(g, form, &mut b);
            // an application that checks its flush
            r && b.flush().is_ok()
        } else {
            write_form(g, form, &mut w) && w.flush().is_ok()
        }
    });
    if w.crashed {
        return Saved::Crashed;
    }
    check!(!(ok && w.failed), "false-ack", "saving as {form:?} reported success although the disk refused a write ({p:?})");
    if !ok {
        check!(w.failed, "false-failure", "saving as {form:?} failed although the disk accepted everything ({p:?})");
        return Saved::Failed;
    }
    f.durable = f.cache.clone();
    count(P_ACKED);
    Saved::Acked
}
fn write_form<W: Write>(g: &Grammar, form: Form, w: &mut W) -> bool {
    match form {
        Form::Json => bnfcalls::json_to(w, false, g).is_ok(),
        Form::Pretty => bnfcalls::json_to(w, true, g).is_ok(),
        Form::Text => write!(w, "{g}").is_ok(),
    }
}

fn shape(g: &MG) -> String {
    let mut s = String::new();
    for (_, alts) in &g.prods {
        s.push('P');
        for a in alts {
            s.push('E');
            for t in a {
                s.push(if matches!(t, MT::T(_)) { 't' } else { 'n' });
            }
        }
    }
    s
}
fn strings(g: &MG) -> Vec<&str> {
    let mut v = vec![];
    for (l, alts) in &g.prods {
        v.push(l.as_str());
        for t in alts.iter().flatten() {
            v.push(match t {
                MT::T(s) | MT::N(s) => s.as_str(),
            });
        }
    }
    v
}
fn kinds_ok(g: &Grammar) -> bool {
    g.productions_iter().all(|p| matches!(p.lhs, Term::Nonterminal(_)))
}
fn hash_of(g: &Grammar) -> u64 {
    use std::hash::{BuildHasher, BuildHasherDefault};
    #[derive(Default)]
    struct Fnv(u64);
    impl std::hash::Hasher for Fnv {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    BuildHasherDefault::<Fnv>::default().hash_one(g)
}

fn same(what: &str, g: &Grammar, back: &Grammar, image: &[u8]) {
    let (eq, a, b) = sim(|| (g == back && hash_of(g) == hash_of(back), g.to_string(), back.to_string()));
    let (ma, mb) = (MG::of(g), MG::of(back));
    check!(eq && ma == mb && a == b, "altered", "{what}: the reloaded grammar differs.\nsaved:\n{}\nloaded:\n{}\nimage: {}", render_grammar(&ma), render_grammar(&mb), String::from_utf8_lossy(image));
}

pub fn run() {
    crate::env::set_env(draw_env());
    nontrivial();
    let (cases, walks) = draw_pool(1, chance(1, 4));
    let c = &cases[0];
    let how = c.how();
    let held = Held::new(|| c.build(how));
    let g = held.get();
    let mg = MG::of(g);
    // text can carry it: nothing empty, no name with '>', no terminal with both quotes
    let textual = c.bnf.is_some();
    let mut file = File::default();
    let mut acked: Option<(Form, &'static Grammar)> = None;
    let mut older: Vec<Held<Grammar>> = vec![];
    // a history of saves, some of other versions
    let steps = range(1, 4);
    let mut crashed = false;
    for k in 0..steps {
        // another version of the grammar
        let version = if chance(1, 3) {
            let h = Held::new(|| {
                let mut v = g.clone();
                v.add_production(Production::from_parts(Term::Nonterminal(format!("extra{k}")), vec![Expression::from_parts(vec![Term::Terminal("x".into())])]));
                v
            });
            older.push(h);
            older.last().unwrap().get()
        } else {
            g
        };
        let form = match weighted(&[4, 1, if textual { 3 } else { 0 }]) {
            0 => Form::Json,
            1 => Form::Pretty,
            _ => Form::Text,
        };
        let want = harness_full(version, form);
        let p = WPlan {
            short: if chance(1, 2) { range(1, 7) } else { 0 },
            intr_every: if chance(1, 2) { range(1, 4) } else { 0 },
            full_at: if chance(1, 3) { choose(want.len() + 1) } else { usize::MAX },
            zero: chance(1, 3),
            crash_at: if k + 1 == steps && chance(1, 3) { choose(want.len() + 1) } else { usize::MAX },
        };
        let buffered = chance(1, 3);
        let out = save(version, form, &mut file, p, buffered);
        ev!("save {k} as {form:?} {p:?} buffered={buffered}: {}", match out { Saved::Acked => "acknowledged", Saved::Failed => "failed", Saved::Crashed => "crashed" });
        case_sig(&format!("{form:?} {p:?} {buffered}"));
        sig(p.full_at as u64 ^ (p.crash_at as u64) << 20 ^ (p.short as u64) << 40);
        match out {
            Saved::Acked => {
                acked = Some((form, version));
                check!(file.durable == want, "altered", "the bytes on disk differ from the text of the grammar: {:?} vs {:?}", String::from_utf8_lossy(&file.durable), String::from_utf8_lossy(&want));
            }
            Saved::Failed => {
                // partial content stays in the temporary file; the next save starts over
                let part = file.cache.clone();
                check!(want.starts_with(&part), "altered", "a failed save left {:?}, not a prefix of {:?}", String::from_utf8_lossy(&part), String::from_utf8_lossy(&want));
                if form != Form::Text && part.len() < want.len() {
                    refuse(&part, "the remains of a failed save", form);
                }
            }
            Saved::Crashed => {
                crashed = true;
                count(F_TORN);
                // what the disk kept of the unsynced file: a prefix, perhaps with lost blocks
                let mut img = file.cache.clone();
                let keep = choose(img.len() + 1);
                img.truncate(keep);
                if img.len() < want.len() && form != Form::Text {
                    refuse(&img, "a torn image", form);
                }
                let mut img = file.cache.clone();
                let block = [4, 8, 16, 64][choose(4)];
                let blocks = img.len() / block;
                if blocks > 0 && form != Form::Text {
                    let b = choose(blocks);
                    img[b * block..(b + 1) * block].fill(0);
                    count(F_LOST_WRITE);
                    refuse(&img, "an image with a lost block", form);
                }
            }
        }
    }
    let _ = crashed;
    // reload what was acknowledged
    if let Some((form, version)) = acked {
        let img = file.durable.clone();
        let tries = range(1, 3);
        for t in 0..tries {
            let p = if t == 0 { CLEAN } else { draw_rplan(img.len()) };
            let back = reload(&img, form, p);
            match back {
                (Ok(b), failed) => {
                    check!(!failed, "read-error-ignored", "loading reported success although reading failed ({p:?})");
                    let b = Held::new(|| b);
                    same("reload", version, b.get(), &img);
                    if t == 0 && std::ptr::eq(version, g) {
                        behaves_the_same(&cases, &walks, g, b.get());
                    }
                    b.free();
                }
                (Err(e), failed) => check!(failed, "refused", "an acknowledged save ({form:?}) cannot be loaded ({p:?}): {e}\nimage: {}", String::from_utf8_lossy(&img)),
            }
        }
        if form != Form::Text {
            rot(&img, version, form);
        } else {
            // torn text: no verdict on the meaning, but it must not crash
            let k = choose(img.len() + 1);
            if let Ok(s) = std::str::from_utf8(&img[..k]) {
                let _ = must("loading torn text", || s.parse::<Grammar>().is_ok());
            }
        }
    }
    pieces(g, &mg, textual);
    if chance(1, 4) {
        concurrent(g);
    }
}
fn harness_full(g: &Grammar, form: Form) -> Vec<u8> {
    let mut v = vec![];
    let ok = must("saving a grammar", || write_form(g, form, &mut v));
    check!(ok, "false-failure", "saving as {form:?} into memory failed");
    v
}
fn reload(img: &[u8], form: Form, p: RPlan) -> (Result<Grammar, String>, bool) {
    if form == Form::Text {
        count(P_RELOAD);
        let mut r = Reader { d: img, at: 0, p, calls: 0, failed: false };
        let mut s = String::new();
        if let Err(e) = r.read_to_string(&mut s) {
            return (Err(e.to_string()), true);
        }
        let g = must("reading saved text", || if p.chunk % 2 == 0 { s.parse::<Grammar>() } else { Grammar::parse_from::<bnf::BNF>(&s) });
        return (g.map_err(|e| e.to_string()), false);
    }
    let via = choose(5);
    load_json(img, p, via)
}
fn refuse(img: &[u8], what: &str, form: Form) {
    let via = choose(5);
    let p = RPlan { err_at: usize::MAX, ..draw_rplan(img.len()) };
    let (r, _) = load_json(img, p, via);
    ev!("{what} of {} bytes ({form:?}): {}", img.len(), if r.is_ok() { "accepted" } else { "refused" });
    if let Ok(b) = r {
        violate!("torn-accepted", "{what} of {} bytes was accepted as\n{}\nimage: {}", img.len(), render_grammar(&MG::of(&b)), String::from_utf8_lossy(img));
    }
}
/// One stored byte goes bad.
fn rot(img: &[u8], version: &Grammar, form: Form) {
    if img.is_empty() {
        return;
    }
    let m = MG::of(version);
    let (sh, st) = (shape(&m), strings(&m));
    // tear it at every kind of place
    for _ in 0..range(1, 4) {
        count(F_TORN);
        refuse(&img[..choose(img.len())], "a truncated image", form);
    }
    let n = if img.len() <= 400 && chance(1, 4) { img.len() } else { range(2, 16) };
    let all = n == img.len();
    for k in 0..n {
        let at = if all { k } else { choose(img.len()) };
        let mut d = img.to_vec();
        let to = match weighted(&[4, 3, 2]) {
            0 => d[at] ^ (1 << choose(8)),
            1 => *pick(b"\"\\{}[],: lrtnTN0a"),
            _ => choose(256) as u8,
        };
        if to == d[at] {
            continue;
        }
        d[at] = to;
        count(F_FLIP);
        let via = choose(5);
        let (r, _) = load_json(&d, CLEAN, via);
        if let Ok(b) = r {
            let mb = MG::of(&b);
            let nb = strings(&mb);
            let diff = if nb.len() == st.len() { nb.iter().zip(&st).filter(|(a, b)| a != b).count() } else { usize::MAX };
            check!(
                shape(&mb) == sh && diff <= 1 && kinds_ok(&b) == kinds_ok(version),
                "silently-altered",
                "byte {at} of the stored image changed from {:?} to {:?} and the damaged image was accepted as\n{}\ninstead of\n{}\ndamaged image: {}",
                img[at] as char,
                to as char,
                render_grammar(&mb),
                render_grammar(&m),
                String::from_utf8_lossy(&d)
            );
        }
    }
}
fn behaves_the_same(cases: &[GCase], walks: &[bool], g: &'static Grammar, b: &'static Grammar) {
    for _ in 0..range(1, 2) {
        let op = draw_op(cases, walks);
        let x = exec(&op, cases, &[g]);
        let y = exec(&op, cases, &[b]);
        check!(x == y, "behaves-differently", "{} gives\n{x}\nbut on the reloaded grammar\n{y}\ngrammar:\n{}", op.name(), render_grammar(&MG::of(g)));
    }
}
/// The parts of a grammar can be stored on their own.
fn pieces(g: &'static Grammar, mg: &MG, textual: bool) {
    if mg.prods.is_empty() {
        return;
    }
    let i = choose(mg.prods.len());
    let p = g.productions_iter().nth(i).unwrap();
    trip("production", p, textual);
    trip("left-hand side", &p.lhs, textual);
    let n = p.rhs_iter().count();
    if n == 0 {
        return;
    }
    let e = p.rhs_iter().nth(choose(n)).unwrap();
    trip("expression", e, textual);
    let n = e.terms_iter().count();
    if n > 0 {
        trip("term", e.terms_iter().nth(choose(n)).unwrap(), textual);
    }
}
fn trip<T>(what: &str, x: &T, textual: bool)
where
    T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Display + std::fmt::Debug + std::str::FromStr<Err = bnf::Error>,
{
    let img = must("saving", || serde_json::to_vec(x));
    let Ok(img) = img else { violate!("false-failure", "{what} {x} cannot be serialised") };
    match must("loading", || serde_json::from_slice::<T>(&img)) {
        Ok(y) => check!(y == *x, "altered", "{what} {x} reloads as {y}"),
        Err(e) => violate!("refused", "{what} {x} cannot be loaded: {e}: {}", String::from_utf8_lossy(&img)),
    }
    count(F_TORN);
    let k = choose(img.len());
    let torn = must("loading", || serde_json::from_slice::<T>(&img[..k]));
    if let Ok(y) = torn {
        violate!("torn-accepted", "{what} {x}: the first {k} bytes of its image load as {y}");
    }
    if textual {
        let s = must("formatting", || x.to_string());
        match must("reading text", || s.parse::<T>()) {
            Ok(y) => check!(y == *x, "altered", "{what} shown as {s} reads back as {y} ({x:?} vs {y:?})"),
            Err(e) => violate!("refused", "{what} shown as {s} cannot be read back: {e}"),
        }
    }
}
/// Two savers and a loader of the same grammar, interleaved at every write.
fn concurrent(g: &'static Grammar) {
    let want = harness_full(g, Form::Json);
    let want: &'static [u8] = Box::leak(want.to_vec().into_boxed_slice());
    let mut bodies: Vec<Box<dyn FnOnce()>> = vec![];
    for t in 0..3 {
        let p = WPlan { short: range(1, 6), intr_every: choose(3), full_at: usize::MAX, zero: false, crash_at: usize::MAX };
        let via = choose(5);
        let r = RPlan { err_at: usize::MAX, ..draw_rplan(want.len()) };
        bodies.push(Box::new(move || {
            if t < 2 {
                let mut f = File::default();
                if let Saved::Acked = save(g, Form::Json, &mut f, p, false) {
                    check!(f.durable == want, "altered", "saving while another thread saves gives {}", String::from_utf8_lossy(&f.durable));
                }
            } else {
                match load_json(want, r, via).0 {
                    Ok(b) => same("load during saves", g, &b, want),
                    Err(e) => violate!("refused", "loading while others save fails: {e}"),
                }
            }
        }));
    }
    sched::run_threads(bodies, range(1, 4), 1);
}
