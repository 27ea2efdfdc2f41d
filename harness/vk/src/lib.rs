//! Shared machinery: deterministic, sharded property runner with shrinking, replay files,
//! evidence files, known-findings handling and a crash supervisor.
pub mod refs;
pub mod gen;

pub use proptest;
pub use num_bigint::{BigInt, BigUint};
pub use num_traits::{One, Zero};
pub use proptest::prelude::*;
pub use proptest::strategy::{BoxedStrategy, Just, Strategy, Union};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (l, r) = (&$a, &$b);
        if !(l == r) { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), l, r)); }
    }};
}

/// Per-case recorder.
#[derive(Default)]
pub struct Case {
    nontrivial: bool,
    classes: Vec<&'static str>,
}
impl Case {
    pub fn nontrivial(&mut self) { self.nontrivial = true; }
    pub fn nontrivial_if(&mut self, c: bool) { if c { self.nontrivial = true; } }
    pub fn class(&mut self, c: &'static str) { self.classes.push(c); }
    pub fn class_if(&mut self, b: bool, c: &'static str) { if b { self.classes.push(c); } }
}

#[derive(Default)]
struct Stats {
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    classes: Mutex<BTreeMap<&'static str, u64>>,
    failed: AtomicBool,
    skipped: AtomicU64,
}

struct Failure { check: String, shard: u64, message: String, input: String }

struct Job { name: String, run: Box<dyn FnOnce() + Send> }

pub struct Suite {
    pub prop: &'static str,
    pub thorough: bool,
    pub seed: u64,
    effort: u64,
    rule: String,
    assumptions: Vec<String>,
    only: Option<String>,
    jobs: Vec<Job>,
    stats: Vec<(String, Arc<Stats>)>,
    failures: Arc<Mutex<Vec<Failure>>>,
    findings: Arc<Mutex<Vec<String>>>,
    known: Vec<(String, String)>,
    start: Instant,
}

pub fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in *p { h = (h ^ *b as u64).wrapping_mul(0x100000001b3); }
        h = (h ^ 0xff).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// What each worker is running right now: (since, check, shard, input). The input pointer stays valid
/// while the slot is set, because the worker clears the slot before the value is dropped.
struct InFlight { since: Instant, check: String, shard: u64, input: *const (dyn Debug + 'static) }
unsafe impl Send for InFlight {}
static SLOTS: Mutex<Vec<Option<InFlight>>> = Mutex::new(Vec::new());
static BUDGET_S: AtomicU64 = AtomicU64::new(u64::MAX);
thread_local! { static SLOT: std::cell::Cell<usize> = std::cell::Cell::new(usize::MAX); }
struct SlotGuard(usize);
fn enter<T: Debug + 'static>(check: &str, shard: u64, v: &T) -> SlotGuard {
    let i = SLOT.with(|s| s.get());
    if i != usize::MAX {
        SLOTS.lock().unwrap()[i] = Some(InFlight { since: Instant::now(), check: check.to_string(), shard, input: v as &(dyn Debug + 'static) as *const _ });
    }
    SlotGuard(i)
}
impl Drop for SlotGuard { fn drop(&mut self) { if self.0 != usize::MAX { SLOTS.lock().unwrap()[self.0] = None; } } }
fn watchdog(prop: &'static str, seed: u64, thorough: bool) {
    let limit: u64 = std::env::var("VK_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 900 } else { 150 });
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let s = SLOTS.lock().unwrap();
        for f in s.iter().flatten() {
            if f.since.elapsed().as_secs() >= limit {
                let input = format!("{:?}", unsafe { &*f.input });
                write_violation(prop, &f.check, f.shard, seed, thorough, &format!("the code under test did not return within {} s", limit), &input);
                std::process::exit(1);
            }
        }
    });
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = Default::default(); }
static TRACE: AtomicBool = AtomicBool::new(false);

/// Runs `f`, turning a panic into an error message.
pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

pub fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()) }

fn clip(s: String, n: usize) -> String {
    if s.len() <= n { return s; }
    let mut e = n;
    while !s.is_char_boundary(e) { e -= 1; }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

#[derive(Clone, Copy)]
pub struct N { pub quick: u64, pub thorough: u64, pub shrink: u32 }
pub fn n(quick: u64, thorough: u64) -> N { N { quick, thorough, shrink: 400 } }
impl N { pub fn shrink(mut self, s: u32) -> N { self.shrink = s; self } }

impl Suite {
    pub fn rule(&mut self, s: &str) { self.rule = s.into(); }
    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.into()); }
    /// Multiplies the case counts of the quick tier (except those of single-shot checks) from here on.
    pub fn effort(&mut self, k: u64) { self.effort = k; }
    pub fn scale(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }

    /// Register a check: `cases` generated inputs from `strat`, judged by `test`.
    pub fn check<T, S, G, F>(&mut self, name: &str, cases: N, strat: G, test: F)
    where
        T: Debug + 'static,
        S: Strategy<Value = T> + 'static,
        G: Fn() -> S + Send + Sync + 'static,
        F: Fn(&T, &mut Case) -> R + Send + Sync + 'static,
    {
        if let Some(o) = &self.only { if o != name { return; } }
        let quick = if cases.quick > 4 { cases.quick * self.effort } else { cases.quick };
        let total = if self.thorough { cases.thorough.max(quick) } else { quick };
        if total == 0 { return; }
        let shards = total.min(16);
        let stats = Arc::new(Stats::default());
        self.stats.push((name.to_string(), stats.clone()));
        let (strat, test) = (Arc::new(strat), Arc::new(test));
        for shard in 0..shards {
            let count = total / shards + if shard < total % shards { 1 } else { 0 };
            let (strat, test, stats, failures) = (strat.clone(), test.clone(), stats.clone(), self.failures.clone());
            let (prop, nm, seed, shrink, start) = (self.prop, name.to_string(), self.seed, cases.shrink, self.start);
            self.jobs.push(Job { name: name.to_string(), run: Box::new(move || {
                if stats.failed.load(Ordering::Relaxed) { return; }
                let mut s = fnv(&[prop.as_bytes(), nm.as_bytes(), &seed.to_le_bytes(), &shard.to_le_bytes()]);
                let mut seed32 = [0u8; 32];
                for c in seed32.chunks_mut(8) { c.copy_from_slice(&splitmix(&mut s).to_le_bytes()); }
                let cfg = Config {
                    cases: count as u32,
                    failure_persistence: None,
                    max_shrink_iters: shrink,
                    max_local_rejects: 100_000,
                    max_global_rejects: 100_000,
                    verbose: 0,
                    ..Config::default()
                };
                let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed32));
                let failing = std::cell::Cell::new(false);
                let r = runner.run(&strat(), |v| {
                    if TRACE.load(Ordering::Relaxed) {
                        let p = format!("{}/target/inflight-{}-{:?}", root(), prop, std::thread::current().id());
                        let _ = std::fs::write(p, format!("check={} shard={} input={}", nm, shard, clip(format!("{:?}", v), 20000)));
                    }
                    if !failing.get() && start.elapsed().as_secs() >= BUDGET_S.load(Ordering::Relaxed) {
                        stats.skipped.fetch_add(1, Ordering::Relaxed);
                        return Ok(());
                    }
                    let mut c = Case::default();
                    let out = { let _g = enter(&nm, shard, &v); guard(|| test(&v, &mut c)) };
                    match out {
                        Ok(()) => {
                            if !failing.get() {
                                stats.evals.fetch_add(1, Ordering::Relaxed);
                                if !c.classes.is_empty() {
                                    let mut m = stats.classes.lock().unwrap();
                                    for k in c.classes { *m.entry(k).or_insert(0) += 1; }
                                }
                                if c.nontrivial {
                                    let d = format!("{:?}", v);
                                    let h = fnv(&[d.as_bytes()]);
                                    let new = stats.distinct.lock().unwrap().insert(h);
                                    if new {
                                        let mut sm = stats.samples.lock().unwrap();
                                        if sm.len() < 2 { sm.push(clip(d, 400)); }
                                    }
                                }
                            }
                            Ok(())
                        }
                        Err(m) => { failing.set(true); Err(TestCaseError::fail(m)) }
                    }
                });
                match r {
                    Ok(()) => {}
                    Err(TestError::Fail(reason, v)) => {
                        stats.failed.store(true, Ordering::Relaxed);
                        failures.lock().unwrap().push(Failure { check: nm, shard, message: reason.message().to_string(), input: format!("{:?}", v) });
                    }
                    Err(TestError::Abort(reason)) => {
                        println!("ERROR check {} aborted: {}", nm, reason.message());
                        std::process::exit(2);
                    }
                }
            })});
        }
    }

    /// A defect that is (or was) recorded under signature `sig`. `probe` returns Some(what) if the
    /// defect shows on this tree. Listed in known_findings.txt => KNOWN-FINDING, otherwise VIOLATION.
    pub fn finding<F>(&mut self, sig: &str, probe: F)
    where F: Fn() -> Result<(), String> + Send + Sync + 'static {
        if let Some(o) = &self.only { if o != sig { return; } }
        let listed = self.known.iter().find(|(s, _)| s == sig).map(|(_, d)| d.clone());
        let (prop, sig, failures, findings) = (self.prop, sig.to_string(), self.failures.clone(), self.findings.clone());
        let stats = Arc::new(Stats::default());
        self.stats.push((sig.clone(), stats.clone()));
        self.jobs.push(Job { name: sig.clone(), run: Box::new(move || {
            stats.evals.fetch_add(1, Ordering::Relaxed);
            let out = { let _g = enter(&sig, 0, &"fixed regression input"); guard(|| probe()) };
            if let Err(m) = out {
                match listed {
                    Some(d) => findings.lock().unwrap().push(format!("KNOWN-FINDING: property={} sig={} {} [{}]", prop, sig, d, clip(m, 300))),
                    None => failures.lock().unwrap().push(Failure { check: sig.clone(), shard: 0, message: m, input: format!("fixed regression input `{}`", sig) }),
                }
            }
        })});
    }

    fn run(mut self, rule_samples: usize) -> i32 {
        let jobs = std::mem::take(&mut self.jobs);
        let threads: usize = std::env::var("VK_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        let timing: Arc<Mutex<BTreeMap<String, f64>>> = Default::default();
        let queue = Arc::new(Mutex::new({ let mut j = jobs; j.reverse(); j }));
        let mut hs = vec![];
        for t in 0..threads {
            let (q, tm) = (queue.clone(), timing.clone());
            SLOTS.lock().unwrap().push(None);
            hs.push(std::thread::Builder::new().name(format!("w{}", t)).stack_size(64 << 20).spawn(move || { SLOT.with(|s| s.set(t)); loop {
                let j = q.lock().unwrap().pop();
                match j {
                    Some(j) => {
                        let t0 = Instant::now();
                        (j.run)();
                        *tm.lock().unwrap().entry(j.name).or_insert(0.0) += t0.elapsed().as_secs_f64();
                    }
                    None => break,
                }
            }}).unwrap());
        }
        for h in hs { if h.join().is_err() { println!("ERROR worker thread died"); return 2; } }
        // evidence
        let mut per = serde_json::Map::new();
        let (mut evals, mut nontriv, mut skipped) = (0u64, 0u64, 0u64);
        let mut samples = vec![];
        let tm = timing.lock().unwrap();
        for (name, s) in &self.stats {
            let e = s.evals.load(Ordering::Relaxed);
            let d = s.distinct.lock().unwrap().len() as u64;
            evals += e;
            skipped += s.skipped.load(Ordering::Relaxed);
            nontriv += d;
            let cl: BTreeMap<_, _> = s.classes.lock().unwrap().clone();
            per.insert(name.clone(), serde_json::json!({"cases": e, "distinct_nontrivial": d, "classes": cl,
                "cpu_s": (tm.get(name).cloned().unwrap_or(0.0) * 100.0).round() / 100.0}));
            for x in s.samples.lock().unwrap().iter().take(1) {
                if samples.len() < rule_samples { samples.push(serde_json::json!(format!("{}: {}", name, x))); }
            }
        }
        let fails = self.failures.lock().unwrap();
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "exploration",
            "coverage": {"evaluations": evals, "distinct_nontrivial": nontriv, "rule": self.rule, "samples": samples, "per_check": per},
            "assumptions": self.assumptions,
            "known_findings": self.findings.lock().unwrap().clone(),
            "violations": fails.len(),
            "cases_skipped_for_time": skipped,
            "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        });
        let dir = format!("{}/evidence", root());
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(format!("{}/{}.json", dir, self.prop), serde_json::to_string_pretty(&ev).unwrap()) {
            println!("ERROR cannot write evidence: {}", e);
            return 2;
        }
        for f in self.findings.lock().unwrap().iter() { println!("{}", f); }
        if self.only.is_none() || std::env::var("VK_VERBOSE").is_ok() {
            println!("{}: {} cases, {} distinct non-trivial, {:.1}s", self.prop, evals, nontriv, self.start.elapsed().as_secs_f64());
        }
        let mut code = 0;
        // one report per check: the shortest counterexample found by any shard
        let mut best: BTreeMap<&str, &Failure> = BTreeMap::new();
        for f in fails.iter() {
            match best.get(f.check.as_str()) {
                Some(b) if b.input.len() <= f.input.len() => {}
                _ => { best.insert(&f.check, f); }
            }
        }
        for f in best.values() {
            code = 1;
            write_violation(self.prop, &f.check, f.shard, self.seed, self.thorough, &f.message, &f.input);
        }
        code
    }
}

fn write_violation(prop: &str, check: &str, shard: u64, seed: u64, thorough: bool, message: &str, input: &str) {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let safe: String = check.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
    let path = format!("{}/{}-{}.json", dir, prop, safe);
    let j = serde_json::json!({"property": prop, "check": check, "shard": shard, "seed": seed,
        "tier": if thorough {"thorough"} else {"quick"}, "message": clip(message.into(), 8000), "minimal_input": clip(input.into(), 100000),
        "reproduce": format!("VERIF_SEED={} VERIF_TIER={} {}/check.sh {} '{}'", seed, if thorough {"thorough"} else {"quick"}, root(), prop, check)});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    println!("check {} failed: {}", check, clip(message.into(), 600));
    println!("  minimal input: {}", clip(input.into(), 600));
    println!("VIOLATION property={} replay={}", prop, path);
    let _ = std::io::stdout().flush();
}

fn load_known(prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", root())) {
        for l in t.lines() {
            // known: property=C12 sig=xyz description…
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("").trim_start_matches("property=");
                let s = it.next().unwrap_or("").trim_start_matches("sig=");
                let d = it.next().unwrap_or("");
                if p == prop { v.push((s.to_string(), d.to_string())); }
            }
        }
    }
    v
}
pub fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }

pub type PropFn = fn(&mut Suite);

/// Entry point of each harness binary: `bin <PROP> [check]`.
pub fn main_with(props: &[(&'static str, PropFn)]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let (id, f) = match props.iter().find(|(p, _)| *p == prop) {
        Some(x) => *x,
        None => { println!("ERROR unknown property {:?}", prop); std::process::exit(2) }
    };
    let seed = seed();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    if std::env::var("VK_CHILD").is_err() { supervise(id, seed, thorough, &args); }
    TRACE.store(std::env::var("VK_TRACE").is_ok(), Ordering::Relaxed);
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("VK_VERBOSE").is_ok() { eprintln!("panic: {}{}", m, l); }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", m, l));
    }));
    BUDGET_S.store(std::env::var("VK_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { u64::MAX } else { 500 }), Ordering::Relaxed);
    watchdog(id, seed, thorough);
    let mut s = Suite { prop: id, thorough, seed, effort: 1, rule: String::new(), assumptions: vec![], only: args.get(2).cloned(), jobs: vec![],
        stats: vec![], failures: Default::default(), findings: Default::default(), known: load_known(id), start: Instant::now() };
    f(&mut s);
    std::process::exit(s.run(12))
}

/// Run the check in a child so that a stack overflow or abort in the code under test is reported
/// (with the in-flight input, found by a deterministic traced re-run) instead of killing the check.
fn supervise(prop: &str, seed: u64, thorough: bool, args: &[String]) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let run = |trace: bool| {
        let mut c = std::process::Command::new(&exe);
        c.args(&args[1..]).env("VK_CHILD", "1");
        if trace { c.env("VK_TRACE", "1").env("VK_THREADS", "8").stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()); }
        c.status()
    };
    let st = match run(false) { Ok(s) => s, Err(e) => { println!("ERROR {}", e); std::process::exit(2) } };
    if let Some(c) = st.code() { std::process::exit(if c == 101 { 2 } else { c }) }
    let sig = st.signal().unwrap_or(0);
    // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV: the code under test crashed
    if [4, 6, 7, 8, 11].contains(&sig) {
        let pre = format!("inflight-{}-", prop);
        let dir = format!("{}/target", root());
        let clean = || if let Ok(rd) = std::fs::read_dir(&dir) {
            for e in rd.flatten() { if e.file_name().to_string_lossy().starts_with(&pre) { let _ = std::fs::remove_file(e.path()); } }
        };
        let _ = std::fs::create_dir_all(&dir);
        clean();
        let st2 = run(true);
        let mut cand = String::new();
        if let Ok(rd) = std::fs::read_dir(&dir) {
            for e in rd.flatten() { if e.file_name().to_string_lossy().starts_with(&pre) {
                cand.push_str(&std::fs::read_to_string(e.path()).unwrap_or_default()); cand.push('\n'); } }
        }
        clean();
        if st2.ok().and_then(|s| s.signal()).map(|s| [4, 6, 7, 8, 11].contains(&s)).unwrap_or(false) {
            write_violation(prop, "crash", 0, seed, thorough, &format!("the code under test crashed the process (signal {})", sig), &format!("in-flight inputs, one per worker:\n{}", cand));
            std::process::exit(1)
        }
    }
    println!("ERROR child ended by signal {}", sig);
    std::process::exit(2)
}

/// A seeded RNG for APIs that need one; every byte comes from the case's own `seed` value.
#[derive(Clone, Debug)]
pub struct SplitRng(pub u64);
impl SplitRng {
    pub fn next(&mut self) -> u64 { splitmix(&mut self.0) }
}
