//! C02 (same results in every environment), C11 (threads), C14 (diagnostics): the same operation
//! scripts, judged against the model and against a run alone in another environment.

use super::common::*;
use crate::env::sim;
use crate::r#gen::*;
use crate::run::*;
use crate::sched;
use crate::{check, ev};
use bnf::Grammar;

pub fn run() {
    crate::env::set_env(draw_env());
    let (cases, walks) = draw_pool(range(1, 3), true);
    let ops: Vec<Op> = (0..range(2, 8)).map(|_| draw_op(&cases, &walks)).collect();
    for (i, o) in ops.iter().enumerate() {
        ev!("op {i}: {}", o.name());
        case_sig(&o.name());
    }
    let hows: Vec<How> = cases.iter().map(|c| c.how()).collect();
    // what the library was used for before
    let noise: Vec<Op> = (0..choose(5)).map(|_| draw_op(&cases, &walks)).collect();
    let ea = draw_env();
    let eb = draw_env();
    nontrivial();
    sig(ea.hash_seed ^ ea.heap_seed.rotate_left(9) ^ eb.hash_seed.rotate_left(21) ^ (ea.hash_mode as u64) << 60);
    let blackout = chance(1, 3);
    let exec_all = |first: &[Op], blackout: bool| -> Vec<String> {
        if blackout {
            // none of these operations may need entropy
            crate::env::set_entropy_fault(0, u64::MAX >> 1);
        }
        let mut held = build_all(&cases, &hows);
        let gs: Vec<&'static Grammar> = held.iter().map(|h| h.get()).collect();
        for o in first {
            std::hint::black_box(exec(o, &cases, &gs));
        }
        if !first.is_empty() {
            // the grammars move
            for h in held.drain(..) {
                h.free();
            }
            held = build_all(&cases, &hows);
        }
        let gs: Vec<&'static Grammar> = held.iter().map(|h| h.get()).collect();
        let r = ops.iter().map(|o| exec(o, &cases, &gs)).collect();
        for h in held {
            h.free();
        }
        r
    };
    let a = fresh(ea, || exec_all(&[], false));
    ev!("environment B: {eb:?} blackout={blackout} after {} other operations", noise.len());
    let b = fresh(eb, || exec_all(&noise, blackout));
    for i in 0..ops.len() {
        ev!("result {i}: {}", a[i]);
        check!(a[i] == b[i], "environment", "operation {i} ({}) gives different results in two environments\n A {ea:?}:\n{}\n B {eb:?} after {} other operations:\n{}\ngrammars:\n{}", ops[i].name(), a[i], noise.len(), b[i], cases.iter().map(|c| c.show()).collect::<Vec<_>>().join("\n"));
    }
}

struct Par(std::marker::PhantomData<Grammar>);
trait NoSync {
    fn shareable(&self) -> bool {
        false
    }
}
trait YesSync {
    fn shareable(&self) -> bool {
        true
    }
}
struct Probe<T>(std::marker::PhantomData<T>);
impl<T: Send + Sync> YesSync for &Probe<T> {}
impl<T> NoSync for Probe<T> {}

pub fn run_threads() {
    let _ = Par(std::marker::PhantomData);
    let ok = (&&Probe::<Grammar>(std::marker::PhantomData)).shareable();
    check!(ok, "not-shareable", "Grammar can no longer be shared between threads (not Send + Sync)");
    let e = draw_env();
    crate::env::set_env(e);
    let (cases, walks) = draw_pool(range(1, 2), false);
    let nt = if chance(1, 10) { range(5, 8) } else { range(2, 4) };
    // in a third of the runs every thread does the same kind of thing
    let only = if chance(1, 3) { Some([0, 0, 7, 8, choose(OP_KINDS)][choose(5)]) } else { None };
    let nt = if only.is_some() && chance(1, 4) { range(5, 8) } else { nt };
    let crowd = only.is_some() && chance(1, 12);
    let nt = if crowd { range(9, 36) } else { nt };
    let scripts: Vec<Vec<Op>> = (0..nt).map(|_| (0..if crowd { 1 } else { range(1, 4) }).map(|_| draw_op_of(&cases, &walks, only)).collect()).collect();
    let hows: Vec<How> = cases.iter().map(|c| c.how()).collect();
    for (t, s) in scripts.iter().enumerate() {
        for o in s {
            ev!("thread {t}: {}", o.name());
            case_sig(&o.name());
        }
    }
    let solo_after = chance(1, 2);
    let solo = |env| -> Vec<Vec<String>> {
        scripts
            .iter()
            .map(|s| {
                let (cases, hows) = (&cases, &hows);
                fresh(env, move || {
                    let held = build_all(cases, hows);
                    let gs: Vec<&'static Grammar> = held.iter().map(|h| h.get()).collect();
                    let r: Vec<String> = s.iter().map(|o| exec(o, cases, &gs)).collect();
                    for h in held {
                        h.free();
                    }
                    r
                })
            })
            .collect()
    };
    let es = draw_env();
    let before = if solo_after { None } else { Some(solo(es)) };
    let private = chance(1, 4);
    let held = build_all(&cases, &hows);
    let results: Vec<std::rc::Rc<std::cell::RefCell<Vec<String>>>> = (0..nt).map(|_| Default::default()).collect();
    let mut bodies: Vec<Box<dyn FnOnce()>> = vec![];
    for t in 0..nt {
        let gs: Vec<&'static Grammar> = held.iter().map(|h| h.get()).collect();
        let s: &'static [Op] = unsafe { std::mem::transmute(scripts[t].as_slice()) };
        let cs: &'static [GCase] = unsafe { std::mem::transmute(cases.as_slice()) };
        let hs: &'static [How] = unsafe { std::mem::transmute(hows.as_slice()) };
        let out = results[t].clone();
        let te = crate::env::EnvCfg { hash_seed: u64_(), entropy_seed: u64_(), ..e };
        bodies.push(Box::new(move || {
            crate::env::set_env(te);
            let own: Vec<Held<Grammar>>;
            let gs = if private && t % 2 == 1 {
                own = build_all(cs, hs);
                own.iter().map(|h| h.get()).collect()
            } else {
                gs
            };
            for o in s {
                let r = exec(o, cs, &gs);
                out.borrow_mut().push(r);
                sched::yield_point();
            }
        }));
    }
    let gap = range(1, 6);
    sched::run_threads(bodies, gap, [1, 1, 8][choose(3)]);
    nontrivial();
    let alone = before.unwrap_or_else(|| solo(es));
    for t in 0..nt {
        let got = results[t].borrow();
        for (i, o) in scripts[t].iter().enumerate() {
            check!(got[i] == alone[t][i], "interference", "thread {t}, operation {i} ({}) gives\n{}\nbut alone it gives\n{}\ngrammars:\n{}", o.name(), got[i], alone[t][i], cases.iter().map(|c| c.show()).collect::<Vec<_>>().join("\n"));
        }
    }
    // the shared grammars are unchanged
    for (h, c) in held.iter().zip(&cases) {
        let same = sim(|| {
            let again = c.build(hows[cases.iter().position(|x| std::ptr::eq(x, c)).unwrap()]);
            again == *h.get()
        });
        check!(same, "interference", "a shared grammar changed");
    }
}
