//! Search driver: forks one process per simulated run, collects verdicts, replays, minimises and
//! reports violations, and writes the evidence file.
//!
//!   bnfsim check <property> --tier quick|thorough --seed N --evidence FILE --replays DIR
//!   bnfsim replay <file>
//!   bnfsim one <property> <run seed>          (debugging: print the event log of one run)
//!   bnfsim selftest <property> <n> <seed>     (determinism: every run twice, logs compared)

use crate::env;
use crate::props::{PROPS, Prop};
use crate::run::{self, *};
use serde_json::{Value, json};
use std::collections::HashSet;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

const CPU_LIMIT_S: u64 = 120;
const WALL_LIMIT_S: u32 = 240;
pub const STEP_LIMIT: u64 = 40_000_000;
const MEM_LIMIT: usize = 3 << 30;
const WORKERS: u64 = 8;

#[derive(Clone)]
struct Res {
    outcome: u32,
    class: String,
    msg: String,
    choices: Vec<u32>,
    log_hash: u64,
    sched_hash: u64,
    case_hash: u64,
    nontrivial: bool,
    log: String,
    counters: Vec<u64>,
}

/// Execute one run in a forked child.
fn execute(p: &Prop, sh: *mut Shared, seed: u64, replay: Option<Vec<u32>>, verbose: bool) -> Res {
    unsafe {
        let s = &mut *sh;
        s.outcome = OUT_RUNNING;
        s.class_len = 0;
        s.msg_len = 0;
        s.n_choices = 0;
        s.counters = [0; NCOUNT];
        s.log_hash = 0;
        s.sched_hash = 0;
        s.case_hash = 0;
        s.nontrivial = 0;
        s.soft = 0;
        s.log_len = 0;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let rl = libc::rlimit { rlim_cur: CPU_LIMIT_S, rlim_max: CPU_LIMIT_S + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &rl);
            let no = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &no);
            libc::alarm(WALL_LIMIT_S);
            env::arena_on(MEM_LIMIT);
            env::ALLOC_LIMIT.store(STEP_LIMIT, SeqCst);
            run::begin(sh, seed, replay, verbose);
            let f = p.run;
            // every run on a thread of its own: same stack whatever forked it
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                match std::panic::catch_unwind(f) {
                    Ok(()) => run::finish_ok(),
                    Err(e) => run::violate_panic(&*e),
                }
            });
            let _ = h.expect("spawn").join();
            libc::_exit(3);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let s = &*sh;
        let text = |b: &[u8], n: u32| String::from_utf8_lossy(&b[..n as usize]).into_owned();
        let mut r = Res {
            outcome: s.outcome,
            class: text(&s.class, s.class_len),
            msg: text(&s.msg, s.msg_len),
            choices: s.choices[..s.n_choices as usize].to_vec(),
            log_hash: s.log_hash,
            sched_hash: s.sched_hash,
            case_hash: s.case_hash,
            nontrivial: s.nontrivial != 0,
            log: text(&s.log, s.log_len),
            counters: s.counters.to_vec(),
        };
        if r.outcome == OUT_RUNNING && s.soft > 0 && libc::WIFSIGNALED(st) && matches!(libc::WTERMSIG(st), libc::SIGXCPU | libc::SIGKILL) {
            r.outcome = OUT_SKIP;
        }
        if r.outcome == OUT_RUNNING {
            r.outcome = OUT_VIOLATION;
            if libc::WIFSIGNALED(st) {
                let sig = libc::WTERMSIG(st);
                let (c, m) = match sig {
                    libc::SIGXCPU | libc::SIGKILL => ("runaway", "the run used up its processor time without ending".to_string()),
                    libc::SIGALRM => ("hang", "the run did not end".to_string()),
                    libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS => ("crash", format!("the process died of signal {sig} (stack overflow, abort or memory error)")),
                    _ => ("crash", format!("the process died of signal {sig}")),
                };
                r.class = c.into();
                r.msg = m;
            } else {
                r.class = "crash".into();
                r.msg = format!("the process ended early with status {st}");
            }
        }
        r
    }
}

fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = seed;
    for b in prop.bytes() {
        h = env::mix(h, b as u64);
    }
    env::mix(h, i)
}

#[derive(Default)]
struct Stats {
    runs: u64,
    ok: u64,
    skipped: u64,
    violations: u64,
    nontrivial: u64,
    counters: Vec<u64>,
    cases: HashSet<u64>,
    scheds: HashSet<u64>,
    rechecked: u64,
    diverged: Vec<u64>,
    choices: u64,
    fault_kinds_per_run: u64,
}

struct Ctl {
    min_viol: AtomicU64,
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    // a fixed address-space layout where the kernel lets us
    unsafe {
        if std::env::var_os("BNFSIM_PINNED").is_none() {
            std::env::set_var("BNFSIM_PINNED", "1");
            if libc::personality(0xffff_ffff) & libc::ADDR_NO_RANDOMIZE == 0
                && libc::personality(libc::ADDR_NO_RANDOMIZE as u64) != -1
            {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(&args[1..]).exec();
                eprintln!("re-exec failed: {e}");
            }
        }
    }
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("BNFSIM_PANICS").is_some() {
            eprintln!("{i}");
        }
    }));
    env::arena_init();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2..]),
        Some("replay") => replay(&args[2]),
        Some("one") => one(&args[2], args[3].parse().unwrap()),
        Some("peer") => peer(&args[2]),
        Some("selftest") => selftest(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap()),
        _ => {
            eprintln!("usage: bnfsim check|replay|one|selftest ...");
            2
        }
    };
    std::process::exit(code);
}
fn prop(id: &str) -> &'static Prop {
    match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}
fn one(id: &str, seed: u64) -> i32 {
    let sh = new_shared();
    let r = execute(prop(id), sh, seed, None, true);
    println!("{}", r.log);
    println!("outcome {} class {:?} {} choices, {} steps, hash {:x}", r.outcome, r.class, r.choices.len(), r.counters[C_ALLOC], r.log_hash);
    if r.outcome == OUT_VIOLATION {
        println!("{}", r.msg);
        return 1;
    }
    0
}
/// Execute the run given by the choices on stdin and print the log (its results).
fn peer(id: &str) -> i32 {
    let mut b = vec![];
    std::io::stdin().read_to_end(&mut b).expect("stdin");
    let c: Vec<u32> = b.chunks_exact(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).collect();
    let sh = new_shared();
    let r = execute(prop(id), sh, 0, Some(c), true);
    if r.outcome == OUT_SKIP {
        print!("{}", PEER_SKIPPED);
    }
    print!("{}{}", r.log, r.msg);
    0
}
fn selftest(id: &str, n: u64, seed: u64) -> i32 {
    let sh = new_shared();
    let p = prop(id);
    let mut bad = 0;
    let mut all = 0u64;
    for i in 0..n {
        let s = run_seed(seed, id, i);
        let a = execute(p, sh, s, None, false);
        let b = execute(p, sh, s, None, true);
        let c = execute(p, sh, 0, Some(a.choices.clone()), false);
        all = env::mix(all, a.log_hash);
        if a.log_hash != b.log_hash || a.log_hash != c.log_hash || a.outcome != c.outcome {
            println!("run {i} (seed {s}) diverges: {:x} {:x} {:x}", a.log_hash, b.log_hash, c.log_hash);
            bad += 1;
        }
    }
    println!("selftest {id}: {n} runs, {bad} diverging, combined log hash {all:x}");
    (bad > 0) as i32
}
/// Do repeated executions of one run produce different logs?
fn unrepeatable(p: &Prop, sh: *mut Shared, seed: u64, choices: Option<Vec<u32>>) -> (bool, Res) {
    let first = execute(p, sh, seed, choices.clone(), true);
    for _ in 0..24 {
        let r = execute(p, sh, seed, choices.clone(), true);
        if first.outcome == OUT_OK && r.outcome == OUT_OK && r.log_hash != first.log_hash {
            return (true, r);
        }
    }
    (false, first)
}
fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let p = prop(v["property"].as_str().unwrap());
    let choices: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let seed = v["seed"].as_u64().unwrap_or(0);
    let sh = new_shared();
    if v["class"] == "nondeterminism" {
        let (differ, r) = unrepeatable(p, sh, seed, Some(choices));
        println!("{}", r.log);
        if differ {
            println!("violation [nondeterminism]\nexecutions of one seed differ");
            println!("VIOLATION property={} replay={file}", p.id);
            return 1;
        }
        println!("no violation on this tree (recorded: [nondeterminism])");
        return 0;
    }
    let r = execute(p, sh, seed, Some(choices), true);
    println!("{}", r.log);
    if r.outcome == OUT_VIOLATION {
        println!("violation [{}]\n{}", r.class, r.msg);
        println!("log hash {:016x}, recorded {}", r.log_hash, v["log_hash"].as_str().unwrap_or("-"));
        println!("VIOLATION property={} replay={file}", p.id);
        return 1;
    }
    println!("no violation on this tree (recorded: [{}])", v["class"].as_str().unwrap_or("?"));
    0
}

fn check(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let p = prop(&a[0]);
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let tier = opt("--tier").unwrap_or("quick".into());
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let evidence = opt("--evidence");
    let replays = opt("--replays").unwrap_or("/tmp".into());
    let mut runs = if tier == "thorough" { p.runs.1 } else { p.runs.0 };
    if let Some(n) = opt("--runs") {
        runs = n.parse().unwrap();
    }
    let workers: u64 = opt("--workers").map_or(WORKERS, |n| n.parse().unwrap());
    let cap = Duration::from_secs(opt("--cap").map_or(if tier == "thorough" { 3000 } else { 420 }, |n| n.parse().unwrap()));
    println!("property {} tier {tier} seed {seed}: {runs} simulated runs", p.id);
    let _ = std::io::stdout().flush();

    let ctl = unsafe {
        let m = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(m != libc::MAP_FAILED);
        &*(m as *const Ctl)
    };
    ctl.min_viol.store(u64::MAX, SeqCst);
    let mut pipes = vec![];
    for w in 0..workers {
        let mut fd = [0i32; 2];
        unsafe {
            assert!(libc::pipe(fd.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fd[0]);
                let s = worker(p, seed, w, workers, runs, t0, cap, ctl);
                use std::os::fd::FromRawFd;
                let mut f = std::fs::File::from_raw_fd(fd[1]);
                let _ = f.write_all(encode(&s).as_bytes());
                drop(f);
                libc::_exit(0);
            }
            libc::close(fd[1]);
            pipes.push((pid, fd[0]));
        }
    }
    let mut total = Stats { counters: vec![0; NCOUNT], ..Default::default() };
    let mut lost = 0;
    for (pid, fd) in pipes {
        use std::os::fd::FromRawFd;
        let mut s = String::new();
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let _ = f.read_to_string(&mut s);
        unsafe {
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
        if !decode(&s, &mut total) {
            lost += 1;
        }
    }
    if lost > 0 {
        eprintln!("{lost} workers lost: harness error");
        return 3;
    }
    let search_s = t0.elapsed().as_secs_f64();
    let sh = new_shared();
    let mv = ctl.min_viol.load(SeqCst);
    let mut code = 0;
    let mut report = Value::Null;
    if mv != u64::MAX {
        report = violation(p, sh, run_seed(seed, p.id, mv), mv, seed, &replays, &tier);
        code = 1;
    } else if !total.diverged.is_empty() {
        // two executions of one seed differ although neither broke an oracle: the code reads
        // something outside the seams. That is a violation of the reproducibility properties and
        // only a remark for the others.
        let i = *total.diverged.iter().min().unwrap();
        let s = run_seed(seed, p.id, i);
        let (differ, r) = unrepeatable(p, sh, s, None);
        eprintln!("remark: run {i} (seed {s}) is not repeatable ({differ})");
        if differ && matches!(p.id, "C02" | "C03") {
            let path = format!("{replays}/{}-seed{seed}-run{i}.json", p.id);
            let _ = std::fs::create_dir_all(&replays);
            let events: Vec<&str> = r.log.lines().collect();
            let msg = "the same calls in the same environment give different results in different processes";
            let v = json!({"property": p.id, "class": "nondeterminism", "violation": msg, "base_seed": seed, "run": i, "seed": s, "choices": r.choices, "events": events, "replay_command": format!("/verif/check.sh replay {path}")});
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").expect("replay file");
            println!("violation [nondeterminism] in run {i} (seed {s}): {msg}");
            println!("VIOLATION property={} replay={path}", p.id);
            report = json!({"class": "nondeterminism", "message": msg, "run": i, "replay": path});
            code = 1;
        }
    }
    let mut samples = vec![];
    for i in 0..3u64.min(runs) {
        let r = execute(p, sh, run_seed(seed, p.id, i * 7 + 1), None, true);
        let mut l: String = r.log.chars().take(3000).collect();
        if r.log.len() > l.len() {
            l.push_str(" ...");
        }
        samples.push(json!({"run": i * 7 + 1, "seed": run_seed(seed, p.id, i * 7 + 1), "events": l.lines().collect::<Vec<_>>()}));
    }
    let mut faults = serde_json::Map::new();
    let mut probes = serde_json::Map::new();
    let mut other = serde_json::Map::new();
    for (i, n) in COUNTER_NAMES {
        let v = total.counters[*i];
        if let Some(f) = n.strip_prefix("fault:") {
            if v > 0 {
                faults.insert(f.into(), json!(v));
            }
        } else if let Some(f) = n.strip_prefix("probe:") {
            if v > 0 {
                probes.insert(f.into(), json!(v));
            }
        } else {
            other.insert(n.to_string(), json!(v));
        }
    }
    let steps = total.counters[C_ALLOC];
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.runs,
            "distinct_nontrivial": total.cases.len(),
            "rule": p.rule,
            "samples": samples,
            "runs_judged": total.ok,
            "runs_skipped_over_budget": total.skipped,
            "nontrivial_runs": total.nontrivial,
            "distinct_interleavings_or_environments": total.scheds.len(),
            "interleaving_measure": "distinct hashes of the run's sequence of scheduling, session and fault decisions (for thread runs: who ran after whom and after how many points)",
            "runs_per_hour_one_seed_each": (total.runs as f64 / search_s * 3600.0) as u64,
            
            "simulated_steps": steps,
            "simulated_time": "one step of simulated time per allocation or hash made by library code; the library has no timers",
            "choices_drawn": total.choices,
            "faults_injected": faults,
            "probes": probes,
            "seam_use": other,
            "runs_executed_twice_with_equal_logs": total.rechecked,
            "real_components": ["the whole bnf crate as built from /repo (features: default, with debug assertions)", "nom, rand (StdRng), hashbrown, serde, serde_json", "std threads, locks and thread-locals"],
            "stub_components": ["foldhash (hash seeds and hash quality drawn by the simulator)", "system entropy (getrandom backend and getrandom(2))", "heap placement (arena allocator with drawn reuse policy)", "clock and sleep", "futex wait/wake and thread choice (baton scheduler)", "caller code: strategies, callbacks, sinks, disk, subscribers"],
            "violation": report,
        },
        "assumptions": [
            "sampling: a clean batch is evidence for the explored seeds, not proof",
            "bounds: grammars of at most about 6 names before lowering, inputs of at most 120 bytes where all derivations are enumerated (longer inputs, up to more than 64 KiB, with derivations known by construction), at most 8 threads, at most 40M allocations per run",
            "threads run one at a time (sequential consistency): weak-memory reordering is not simulated; library code can be preempted at every basic block, load and store, dependencies only at allocations, hashes and system calls"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if code == 1 { 1 } else { 0 },
    });
    if let Some(f) = evidence {
        if let Some(d) = std::path::Path::new(&f).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&f, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    }
    println!(
        "{}: {} runs ({} judged, {} skipped), {} distinct cases, {} distinct interleavings, {:.1} s",
        p.id,
        total.runs,
        total.ok,
        total.skipped,
        total.cases.len(),
        total.scheds.len(),
        t0.elapsed().as_secs_f64()
    );
    if std::env::var_os("BNFSIM_STATS").is_some() {
        for (i, n) in COUNTER_NAMES {
            if total.counters[*i] > 0 {
                println!("  {n}: {}", total.counters[*i]);
            }
        }
    }
    code
}

fn worker(p: &Prop, seed: u64, w: u64, nw: u64, runs: u64, t0: Instant, cap: Duration, ctl: &Ctl) -> Stats {
    let sh = new_shared();
    let mut st = Stats { counters: vec![0; NCOUNT], ..Default::default() };
    let slow = std::env::var_os("BNFSIM_SLOW").is_some();
    let mut i = w;
    while i < runs {
        if i > ctl.min_viol.load(SeqCst) || t0.elapsed() > cap {
            break;
        }
        let s = run_seed(seed, p.id, i);
        let t = Instant::now();
        let r = execute(p, sh, s, None, false);
        if slow && t.elapsed().as_millis() > 1000 {
            eprintln!("slow: run {i} seed {s} {} ms, {} blocks, {} steps, outcome {}", t.elapsed().as_millis(), r.counters[C_BLOCKS], r.counters[C_ALLOC], r.outcome);
        }
        st.runs += 1;
        for (k, v) in r.counters.iter().enumerate() {
            st.counters[k] += v;
        }
        st.choices += r.choices.len() as u64;
        match r.outcome {
            OUT_OK => st.ok += 1,
            OUT_SKIP => st.skipped += 1,
            _ => {
                st.violations += 1;
                ctl.min_viol.fetch_min(i, SeqCst);
                break;
            }
        }
        if r.outcome == OUT_OK && r.nontrivial {
            st.nontrivial += 1;
            st.cases.insert(r.case_hash);
            st.scheds.insert(env::mix(r.sched_hash, r.case_hash));
        }
        if i % 97 == 13 {
            let again = execute(p, sh, s, None, false);
            st.rechecked += 1;
            if again.log_hash != r.log_hash {
                st.diverged.push(i);
            }
        }
        i += nw;
    }
    st
}
fn encode(s: &Stats) -> String {
    let l = |v: &mut dyn Iterator<Item = u64>| v.map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    format!(
        "{} {} {} {} {} {} {} {}\n{}\n{}\n{}\n{}\nend\n",
        s.runs,
        s.ok,
        s.skipped,
        s.violations,
        s.nontrivial,
        s.rechecked,
        s.choices,
        s.fault_kinds_per_run,
        l(&mut s.counters.iter().copied()),
        l(&mut s.cases.iter().copied()),
        l(&mut s.scheds.iter().copied()),
        l(&mut s.diverged.iter().copied())
    )
}
fn decode(t: &str, s: &mut Stats) -> bool {
    let lines: Vec<&str> = t.split('\n').collect();
    if lines.len() < 6 || lines[5] != "end" {
        return false;
    }
    let n = |l: &str| l.split(' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect::<Vec<u64>>();
    let h = n(lines[0]);
    s.runs += h[0];
    s.ok += h[1];
    s.skipped += h[2];
    s.violations += h[3];
    s.nontrivial += h[4];
    s.rechecked += h[5];
    s.choices += h[6];
    for (k, v) in n(lines[1]).into_iter().enumerate() {
        s.counters[k] += v;
    }
    s.cases.extend(n(lines[2]));
    s.scheds.extend(n(lines[3]));
    s.diverged.extend(n(lines[4]));
    true
}

/// Reproduce, minimise and report.
fn violation(p: &Prop, sh: *mut Shared, s: u64, i: u64, seed: u64, dir: &str, tier: &str) -> Value {
    let t0 = Instant::now();
    let first = execute(p, sh, s, None, true);
    let mut reproduced = first.outcome == OUT_VIOLATION;
    let mut best = first.clone();
    if !reproduced {
        for _ in 0..20 {
            let r = execute(p, sh, s, None, true);
            if r.outcome == OUT_VIOLATION {
                best = r;
                reproduced = true;
                break;
            }
        }
    }
    let class = best.class.clone();
    let mut tried = 0u64;
    let mut minimised = false;
    let budget = Duration::from_secs(if tier == "thorough" { 120 } else { 45 });
    if reproduced && class != "hang" {
        let r = execute(p, sh, s, Some(best.choices.clone()), true);
        if r.outcome == OUT_VIOLATION && r.class == class {
            best = r;
            minimised = true;
        }
        // (runs that use up a budget take long: they are reported as they are)
        if minimised && class != "runaway" && class != "hang" {
            shrink(p, sh, s, &mut best, &class, t0 + budget, &mut tried);
        }
    }
    let confirm = if class == "hang" { best.clone() } else { execute(p, sh, s, if minimised { Some(best.choices.clone()) } else { None }, true) };
    let stable = confirm.outcome == OUT_VIOLATION && confirm.class == class && confirm.log_hash == best.log_hash;
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{}-seed{seed}-run{i}.json", p.id);
    let events: Vec<&str> = best.log.lines().collect();
    let v = json!({
        "property": p.id,
        "class": class,
        "violation": best.msg,
        "base_seed": seed,
        "run": i,
        "seed": s,
        "choices": if minimised { best.choices.clone() } else { vec![] },
        "choices_before_minimising": first.choices.len(),
        "minimising_attempts": tried,
        "log_hash": format!("{:016x}", best.log_hash),
        "replayed_exactly": stable,
        "events": events,
        "replay_command": format!("/verif/check.sh replay {path}"),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").expect("replay file");
    println!("violation [{class}] in run {i} (seed {s}), minimised from {} to {} choices, replay exact: {stable}", first.choices.len(), best.choices.len());
    for l in best.msg.lines().take(40) {
        println!("  {l}");
    }
    println!("VIOLATION property={} replay={path}", p.id);
    let _ = std::io::stdout().flush();
    json!({"class": class, "message": best.msg, "run": i, "replay": path, "replayed_exactly": stable})
}

fn shrink(p: &Prop, sh: *mut Shared, s: u64, best: &mut Res, class: &str, end: Instant, tried: &mut u64) {
    let better = |a: &[u32], b: &[u32]| (a.len(), a.iter().map(|x| *x as u64).sum::<u64>()) < (b.len(), b.iter().map(|x| *x as u64).sum::<u64>());
    let mut attempt = |c: Vec<u32>, best: &mut Res| -> bool {
        *tried += 1;
        let r = execute(p, sh, s, Some(c), true);
        if r.outcome == OUT_VIOLATION && r.class == class {
            let mut rc = r.choices.clone();
            while rc.last() == Some(&0) {
                rc.pop();
            }
            let mut bc = best.choices.clone();
            while bc.last() == Some(&0) {
                bc.pop();
            }
            if better(&rc, &bc) {
                *best = r;
                return true;
            }
        }
        false
    };
    loop {
        let mut progress = false;
        let mut size = (best.choices.len() / 2).max(1);
        while size > 0 {
            let mut at = 0;
            while at < best.choices.len() {
                if Instant::now() > end {
                    return;
                }
                let mut c = best.choices.clone();
                let hi = (at + size).min(c.len());
                c.drain(at..hi);
                if attempt(c, best) {
                    progress = true;
                    continue;
                }
                if best.choices[at..hi.min(best.choices.len())].iter().any(|x| *x != 0) {
                    let mut c = best.choices.clone();
                    for x in &mut c[at..hi] {
                        *x = 0;
                    }
                    if attempt(c, best) {
                        progress = true;
                    }
                }
                at += size;
            }
            size /= 2;
        }
        let mut k = 0;
        while k < best.choices.len() {
            if Instant::now() > end {
                return;
            }
            let v = best.choices[k];
            for nv in [v / 2, v.saturating_sub(1)] {
                if nv < v && k < best.choices.len() && best.choices[k] == v {
                    let mut c = best.choices.clone();
                    c[k] = nv;
                    if attempt(c, best) {
                        progress = true;
                    }
                }
            }
            k += 1;
        }
        if !progress {
            return;
        }
    }
}
