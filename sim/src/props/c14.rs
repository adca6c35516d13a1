//! C14: diagnostics on, off, flickering and switched per thread. In the build without the
//! instrumentation this scenario only prints the reference results (the "peer").

use super::common::*;
use crate::r#gen::*;
use crate::run::*;
#[allow(unused_imports)]
use crate::{check, ev};
use bnf::Grammar;

fn perform(cases: &[GCase], hows: &[How], ops: &[Op], between: &dyn Fn(usize)) -> Vec<String> {
    let held = build_all(cases, hows);
    let gs: Vec<&'static Grammar> = held.iter().map(|h| h.get()).collect();
    let mut r: Vec<String> = vec![];
    for (i, o) in ops.iter().enumerate() {
        between(i);
        r.push(exec(o, cases, &gs));
    }
    for h in held {
        h.free();
    }
    r
}

/// A result as it is told to the other build: in full, or by its beginning, length and hash.
fn brief(r: &str) -> String {
    if r.len() <= 3000 {
        return r.to_string();
    }
    let head: String = r.chars().take(300).collect();
    let h = r.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3));
    format!("{head}... ({} bytes, hash {h:016x})", r.len())
}

pub fn run() {
    let peer = chance(1, 3);
    crate::env::set_env(draw_env());
    let (cases, walks) = draw_pool(range(1, 2), chance(1, 3));
    let ops: Vec<Op> = (0..range(2, 6)).map(|_| draw_op(&cases, &walks)).collect();
    let hows: Vec<How> = cases.iter().map(|c| c.how()).collect();
    for (i, o) in ops.iter().enumerate() {
        ev!("op {i}: {}", o.name());
        case_sig(&o.name());
    }
    let ea = draw_env();
    let plain = fresh(ea, || perform(&cases, &hows, &ops, &|_| {}));
    let text = plain.iter().enumerate().map(|(i, r)| format!("result {i}: {}", brief(r))).collect::<Vec<_>>().join("\n");
    ev!("{text}");
    let _ = (peer, &text);
    #[cfg(feature = "trace")]
    traced::run(&cases, &hows, &ops, &plain, peer.then_some(text.as_str()));
}

#[cfg(feature = "trace")]
mod traced {
    use super::*;
    use crate::env::{EnvCfg, Rng, harness, mix, sim};
    use crate::sched;
    use std::fmt::Write as _;
    use std::sync::Arc;
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
    use tracing::span::{Attributes, Id, Record};
    use tracing::subscriber::Interest;
    use tracing::{Dispatch, Event, Metadata, Subscriber};

    /// What a subscriber is interested in.
    #[derive(Clone, Copy, Debug)]
    enum Policy {
        Off,
        All,
        Level(u8),
        /// call sites by hash
        Sites(u64),
        /// a coin per question
        Coin(u64),
    }
    fn draw_policy() -> Policy {
        match weighted(&[1, 3, 3, 2, 2]) {
            0 => Policy::Off,
            1 => Policy::All,
            2 => Policy::Level(choose(5) as u8),
            3 => Policy::Sites(u64_()),
            _ => Policy::Coin(u64_()),
        }
    }
    struct Sub {
        policies: Vec<Policy>,
        at: AtomicUsize,
        coin: AtomicU64,
        spans: AtomicU64,
        text: AtomicU64,
        /// always ask again instead of caching the answer
        sometimes: bool,
        hint: bool,
        show: bool,
        yields: bool,
        reenter: Option<&'static Grammar>,
        busy: AtomicUsize,
    }
    struct Shared(Arc<Sub>);
    fn level(m: &Metadata<'_>) -> u8 {
        match *m.level() {
            tracing::Level::ERROR => 0,
            tracing::Level::WARN => 1,
            tracing::Level::INFO => 2,
            tracing::Level::DEBUG => 3,
            _ => 4,
        }
    }
    impl Sub {
        fn draw(g: &'static Grammar) -> Arc<Sub> {
            Arc::new(Sub {
                policies: (0..range(1, 3)).map(|_| draw_policy()).collect(),
                at: AtomicUsize::new(0),
                coin: AtomicU64::new(u64_()),
                spans: AtomicU64::new(1),
                text: AtomicU64::new(0),
                sometimes: chance(1, 2),
                hint: chance(1, 2),
                show: chance(3, 4),
                yields: chance(1, 2),
                reenter: chance(1, 5).then_some(g),
                busy: AtomicUsize::new(0),
            })
        }
        fn policy(&self) -> Policy {
            self.policies[self.at.load(Relaxed) % self.policies.len()]
        }
        fn wants(&self, m: &Metadata<'_>) -> bool {
            match self.policy() {
                Policy::Off => false,
                Policy::All => true,
                Policy::Level(l) => level(m) <= l,
                Policy::Sites(s) => {
                    let h = m.name().bytes().fold(s, |h, b| mix(h, b as u64));
                    mix(h, m.line().unwrap_or(0) as u64) & 1 == 1
                }
                Policy::Coin(_) => {
                    let mut r = Rng(self.coin.load(Relaxed));
                    let v = r.next();
                    self.coin.store(r.0, Relaxed);
                    v & 1 == 1
                }
            }
        }
        fn flip(&self) {
            self.at.fetch_add(1, Relaxed);
            harness(|| {
                count(F_TRACE_ON);
                tracing::callsite::rebuild_interest_cache();
            });
        }
        fn seen(&self) {
            harness(|| count(P_SPANS));
            if self.yields {
                sched::yield_point();
            }
            // the subscriber itself uses the library
            if let Some(g) = self.reenter
                && self.busy.swap(1, Relaxed) == 0
            {
                if self.spans.load(Relaxed) % 64 == 3 {
                    harness(|| count(F_REENTRY));
                    let n = g.to_string().len() + g.validate().is_ok() as usize;
                    std::hint::black_box(n);
                }
                self.busy.store(0, Relaxed);
            }
        }
    }
    struct Look<'a>(&'a Sub);
    impl tracing::field::Visit for Look<'_> {
        fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
            if self.0.show {
                let mut s = String::new();
                let _ = write!(s, "{}={v:?}", f.name());
                self.0.text.fetch_add(s.len() as u64, Relaxed);
            }
        }
    }
    impl Subscriber for Shared {
        fn register_callsite(&self, m: &'static Metadata<'static>) -> Interest {
            if self.0.sometimes {
                Interest::sometimes()
            } else if self.0.wants(m) {
                Interest::always()
            } else {
                Interest::never()
            }
        }
        fn enabled(&self, m: &Metadata<'_>) -> bool {
            self.0.wants(m)
        }
        fn max_level_hint(&self) -> Option<tracing::level_filters::LevelFilter> {
            use tracing::level_filters::LevelFilter as L;
            if !self.0.hint {
                return None;
            }
            match self.0.policy() {
                Policy::Off => Some(L::OFF),
                Policy::Level(l) => Some([L::ERROR, L::WARN, L::INFO, L::DEBUG, L::TRACE][l as usize]),
                _ => None,
            }
        }
        fn new_span(&self, a: &Attributes<'_>) -> Id {
            a.record(&mut Look(&self.0));
            let id = self.0.spans.fetch_add(1, Relaxed);
            self.0.seen();
            Id::from_u64(id)
        }
        fn record(&self, _: &Id, r: &Record<'_>) {
            r.record(&mut Look(&self.0));
        }
        fn record_follows_from(&self, _: &Id, _: &Id) {}
        fn event(&self, e: &Event<'_>) {
            e.record(&mut Look(&self.0));
            self.0.spans.fetch_add(1, Relaxed);
            self.0.seen();
        }
        fn enter(&self, _: &Id) {
            self.0.seen();
        }
        fn exit(&self, _: &Id) {
            self.0.seen();
        }
    }

    fn compare(what: &str, ops: &[Op], cases: &[GCase], plain: &[String], got: &[String]) {
        for i in 0..ops.len() {
            check!(
                plain[i] == got[i],
                "diagnostics-change-results",
                "operation {i} ({}) with {what} gives\n{}\nbut with diagnostics off\n{}\ngrammars:\n{}",
                ops[i].name(),
                got[i],
                plain[i],
                cases.iter().map(|c| c.show()).collect::<Vec<_>>().join("\n")
            );
        }
    }

    pub fn run(cases: &[GCase], hows: &[How], ops: &[Op], plain: &[String], peer: Option<&str>) {
        nontrivial();
        if let Some(mine) = peer {
            count(P_PEER);
            let theirs = ask_peer();
            if theirs.starts_with(PEER_SKIPPED) {
                skip(); // the other build ran out of its step budget first
            }
            let tail: Option<&str> = theirs.find("result 0: ").map(|i| theirs[i..].trim_end_matches('\n'));
            check!(tail == Some(mine.trim_end_matches('\n')), "diagnostics-change-results", "the build with the instrumentation compiled in gives\n{mine}\nand the build without it\n{}", tail.unwrap_or(&theirs));
        }
        let extra = Held::new(|| cases[0].build(hows[0]));
        let n = choose(4);
        if n < 2 {
            // one thread; the subscriber may change its mind between calls
            let sub = Sub::draw(extra.get());
            ev!("subscriber {:?} cached={} shows={}", sub.policies, !sub.sometimes, sub.show);
            case_sig(&format!("{:?}", sub.policies));
            let flips: Vec<bool> = ops.iter().map(|_| chance(1, 3)).collect();
            let global = chance(1, 4);
            let e = draw_env();
            let s2 = sub.clone();
            let got = fresh(e, || {
                let d = Dispatch::new(Shared(s2.clone()));
                let between = |i: usize| {
                    if flips[i] {
                        s2.flip();
                    }
                };
                if global {
                    let _ = tracing::dispatcher::set_global_default(d);
                    perform(cases, hows, ops, &between)
                } else {
                    tracing::dispatcher::with_default(&d, || perform(cases, hows, ops, &between))
                }
            });
            sig(sub.spans.load(Relaxed));
            compare("a subscriber installed", ops, cases, plain, &got);
            // and off again
            if !global && chance(1, 2) {
                let e = draw_env();
                let got = fresh(e, || perform(cases, hows, ops, &|_| {}));
                compare("the subscriber removed again", ops, cases, plain, &got);
            }
        } else {
            // threads with their own subscribers, or none
            let nt = n;
            let results: Vec<std::rc::Rc<std::cell::RefCell<Vec<String>>>> = (0..nt).map(|_| Default::default()).collect();
            let mut bodies: Vec<Box<dyn FnOnce()>> = vec![];
            for out in results.iter().take(nt) {
                let sub = chance(3, 4).then(|| Sub::draw(extra.get()));
                let flips: Vec<bool> = ops.iter().map(|_| chance(1, 3)).collect();
                let te: EnvCfg = draw_env();
                let out = out.clone();
                let (cases, hows, ops): (&'static [GCase], &'static [How], &'static [Op]) = unsafe { (std::mem::transmute(cases), std::mem::transmute(hows), std::mem::transmute(ops)) };
                if let Some(s) = &sub {
                    ev!("thread subscriber {:?} cached={}", s.policies, !s.sometimes);
                    case_sig(&format!("{:?}", s.policies));
                }
                bodies.push(Box::new(move || {
                    crate::env::set_env(te);
                    let r = match sub {
                        None => perform(cases, hows, ops, &|_| {}),
                        Some(s) => {
                            // installed while the other threads run: simulated code
                            let s2 = s.clone();
                            let d = sim(|| Dispatch::new(Shared(s2)));
                            tracing::dispatcher::with_default(&d, || {
                                perform(cases, hows, ops, &|i| {
                                    if flips[i] {
                                        s.at.fetch_add(1, Relaxed);
                                        count(F_TRACE_ON);
                                        sim(tracing::callsite::rebuild_interest_cache);
                                    }
                                })
                            })
                        }
                    };
                    *out.borrow_mut() = r;
                }));
            }
            sched::run_threads(bodies, range(1, 5), [1, 8][choose(2)]);
            for r in &results {
                compare("other threads' subscribers at work", ops, cases, plain, &r.borrow());
            }
        }
    }
    fn ask_peer() -> String {
        use std::io::{Read, Write};
        let exe = std::env::current_exe().expect("exe");
        // .build/trace/release/bnfsim -> .build/sim/release/bnfsim
        let plain = exe.ancestors().nth(3).expect("layout").join("sim/release/bnfsim");
        let mut c = match std::process::Command::new(&plain)
            .args(["peer", "C14"])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .spawn()
        {
            Ok(c) => c,
            Err(_) => skip(),
        };
        let b: Vec<u8> = drawn().iter().flat_map(|x| x.to_le_bytes()).collect();
        let _ = c.stdin.take().unwrap().write_all(&b);
        let mut s = String::new();
        let _ = c.stdout.take().unwrap().read_to_string(&mut s);
        let _ = c.wait();
        s
    }
}
