//! Harness runtime: sections of independent cases, evidence, violations, replay, panic and progress monitors.
use crate::rng::{hash_bytes, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
/// "file:line: message" of the panic last caught on this thread.
pub fn take_panic() -> String { LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut())) }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{}: {}", loc, msg));
    }));
}

/// A refuted property: `sig` identifies the failure exactly (known findings match on it).
#[derive(Debug, Clone)]
pub struct Violation { pub sig: String, pub detail: String }
pub type Res = Result<(), Violation>;
pub fn viol<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { sig: sig.into(), detail: detail.into() })
}

pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    loc: &'a RefCell<Local>,
}
#[derive(Default)]
struct Local { counts: BTreeMap<String, u64>, distinct: HashSet<u64>, samples: Vec<String>, known: BTreeMap<String, u64>, evals: u64, want_sample: bool, sets: BTreeMap<String, HashSet<u64>> }
impl<'a> Case<'a> {
    pub fn count(&self, k: &str, n: u64) {
        let mut l = self.loc.borrow_mut();
        if let Some(x) = l.counts.get_mut(k) { *x += n } else { l.counts.insert(k.to_string(), n); }
    }
    /// Records a distinct non-trivial case.
    pub fn distinct(&self, h: u64) { let mut l = self.loc.borrow_mut(); if l.distinct.len() < 1_500_000 { l.distinct.insert(h); } }
    pub fn distinct_bytes(&self, b: &[u8]) { self.distinct(hash_bytes(b)) }
    /// A named set of states seen (its size is reported).
    pub fn seen(&self, set: &str, h: u64) {
        let mut l = self.loc.borrow_mut();
        if !l.sets.contains_key(set) { l.sets.insert(set.to_string(), HashSet::new()); }
        let s = l.sets.get_mut(set).unwrap();
        if s.len() < 300_000 { s.insert(h); }
    }
    pub fn want_sample(&self) -> bool { self.loc.borrow().want_sample }
    pub fn sample(&self, s: String) { let mut l = self.loc.borrow_mut(); if l.want_sample && l.samples.len() < 8 { l.samples.push(s) } }
    /// Extra evaluations performed inside this case (beyond the one counted for the case).
    pub fn evals(&self, n: u64) { self.loc.borrow_mut().evals += n }
    /// A violation that may be a recorded finding: returned as Err only if it is not listed.
    pub fn known_or(&self, v: Violation) -> Res {
        if KNOWN.lock().unwrap().iter().any(|k| k.0 == v.sig) {
            *self.loc.borrow_mut().known.entry(v.sig).or_default() += 1;
            Ok(())
        } else { Err(v) }
    }
    /// Calls code under test; a panic in it is a violation, a panic in the harness propagates.
    pub fn call<T>(&self, what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Ok(v),
            Err(p) => {
                let l = take_panic();
                if l.contains("harness:") { LAST_PANIC.with(|x| *x.borrow_mut() = l); std::panic::resume_unwind(p); }
                viol(format!("panic in {}", what), format!("panic in {} at {}", what, l))
            },
        }
    }
}
static KNOWN: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    /// how many times the quick counts of this check are multiplied (never beyond the thorough counts)
    pub boost: u64,
    threads: usize,
    replay: Option<(String, u64)>,
    out: String,
    replay_dir: String,
    sections: Vec<Value>,
    rules: Vec<String>,
    evals: u64,
    distinct: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    sets: BTreeMap<String, HashSet<u64>>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
    violations: Vec<(String, u64, Violation)>,
    pub assumptions: Vec<String>,
    pub level: String,
    pub exhaustive: bool,
    t0: Instant,
    cpu_budget: u64,
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

impl Ctx {
    pub fn new(prop: &str) -> Self {
        install_hook();
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let mut seed: u64 = seed;
        let replay = arg("--replay").map(|f| {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(f).expect("harness: replay file")).expect("harness: replay json");
            seed = v["seed"].as_u64().unwrap();
            if v["tier"] == "thorough" { thorough = true; }
            (v["section"].as_str().unwrap().to_string(), v["index"].as_u64().unwrap())
        });
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.json", root)) {
            let v: Value = serde_json::from_str(&t).expect("harness: known_findings.json");
            let mut k = KNOWN.lock().unwrap();
            for f in v["findings"].as_array().unwrap() {
                if f["property"] == prop && f["status"] == "known" {
                    k.push((f["signature"].as_str().unwrap().into(), f["what"].as_str().unwrap().into()));
                }
            }
        }
        let threads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8));
        Ctx { prop: prop.into(), seed, thorough, boost: 1, threads, replay, out: std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence/{}.json", root, prop)), replay_dir: format!("{}/replays", root),
            sections: vec![], rules: vec![], evals: 0, distinct: HashSet::new(), counts: BTreeMap::new(), sets: BTreeMap::new(), samples: vec![], known: BTreeMap::new(),
            violations: vec![], assumptions: vec![], level: "exploration".into(), exhaustive: false, t0: Instant::now(), cpu_budget: 120 }
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 { if self.thorough { thorough } else { (quick * self.boost).min(thorough) } }

    /// Runs `n` independent cases. `rule` says how they are made and what makes one non-trivial.
    pub fn section<F>(&mut self, name: &str, rule: &str, n: u64, f: F)
    where F: Fn(&mut Case) -> Res + Sync {
        if let Some((s, i)) = &self.replay {
            if s != name { return; }
            let loc = RefCell::new(Local { want_sample: true, ..Default::default() });
            let mut c = Case { rng: Rng::for_case(self.seed, name, *i), idx: *i, thorough: self.thorough, loc: &loc };
            let r = f(&mut c);
            println!("replay {} #{}: {}", s, i, match &r { Ok(()) => "no violation".to_string(), Err(v) => format!("{} -- {}", v.sig, v.detail) });
            if let Err(v) = r { self.violations.push((name.into(), *i, v)); }
            return;
        }
        let t = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let viols: Mutex<Vec<(u64, Violation)>> = Mutex::new(vec![]);
        let locals: Mutex<Vec<Local>> = Mutex::new(vec![]);
        let nt = self.threads.min(n.max(1) as usize).max(1);
        // progress monitor: (tid, current index + 1, cpu ns at its start)
        let slots: Vec<(AtomicUsize, AtomicU64)> = (0..nt).map(|_| (AtomicUsize::new(0), AtomicU64::new(0))).collect();
        let done = AtomicUsize::new(0);
        let (seed, thorough, budget) = (self.seed, self.thorough, self.cpu_budget);
        let me = &*self;
        let harness_panic: Mutex<Option<String>> = Mutex::new(None);
        std::thread::scope(|sc| {
            for k in 0..nt {
                let (next, stop, viols, locals, f, slots, done, harness_panic) = (&next, &stop, &viols, &locals, &f, &slots, &done, &harness_panic);
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || {
                    let tid = unsafe { libc::syscall(libc::SYS_gettid) } as usize;
                    slots[k].0.store(tid, SeqCst);
                    let loc = RefCell::new(Local::default());
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= n || stop.load(SeqCst) { break; }
                        slots[k].1.store(i + 1, SeqCst);
                        loc.borrow_mut().want_sample = i < 3 || i == n / 2;
                        let mut c = Case { rng: Rng::for_case(seed, name, i), idx: i, thorough, loc: &loc };
                        let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
                        match r {
                            Ok(Ok(())) => {},
                            Ok(Err(v)) => {
                                let mut g = viols.lock().unwrap();
                                g.push((i, v));
                                if g.len() >= 12 { stop.store(true, SeqCst); }
                            },
                            Err(_) if LAST_PANIC.with(|l| { let l = l.borrow(); !l.starts_with("src/") && !l.contains("harness:") && l.contains("/ublox") }) => {
                                // the code under test panicked where nothing was expected to
                                viols.lock().unwrap().push((i, Violation { sig: "panic in the code under test".into(), detail: take_panic() }));
                                stop.store(true, SeqCst);
                            },
                            Err(_) => {
                                *harness_panic.lock().unwrap() = Some(format!("section {} case {}: {}", name, i, take_panic()));
                                stop.store(true, SeqCst);
                            },
                        }
                        loc.borrow_mut().evals += 1;
                    }
                    slots[k].1.store(0, SeqCst);
                    locals.lock().unwrap().push(loc.into_inner());
                    done.fetch_add(1, SeqCst);
                }).unwrap();
            }
            // watchdog: a single case that burns `budget` seconds of CPU (typical: below 10 ms) does not terminate.
            let (slots, done) = (&slots, &done);
            sc.spawn(move || {
                let mut mark: Vec<(u64, u64)> = vec![(0, 0); nt];
                let mut tick = 0u64;
                while done.load(SeqCst) < nt {
                    std::thread::sleep(std::time::Duration::from_millis(if tick < 50 { 10 } else { 500 }));
                    tick += 1;
                    if tick < 50 { continue; }
                    for k in 0..nt {
                        let (tid, cur) = (slots[k].0.load(SeqCst), slots[k].1.load(SeqCst));
                        if cur == 0 { continue; }
                        let cpu = std::fs::read_to_string(format!("/proc/self/task/{}/schedstat", tid)).ok()
                            .and_then(|s| s.split_whitespace().next().and_then(|x| x.parse::<u64>().ok())).unwrap_or(0);
                        if mark[k].0 != cur { mark[k] = (cur, cpu); }
                        else if cpu.saturating_sub(mark[k].1) > budget * 1_000_000_000 {
                            let v = Violation { sig: "no termination".into(), detail: format!("case consumed more than {} s of CPU time without finishing", budget) };
                            me.emit_violation(name, cur - 1, &v);
                            std::process::exit(1);
                        }
                    }
                }
            });
        });
        if let Some(p) = harness_panic.into_inner().unwrap() { eprintln!("HARNESS-ERROR {}", p); std::process::exit(2); }
        let mut distinct = HashSet::new();
        let mut evals = 0;
        for l in locals.into_inner().unwrap() {
            for (k, v) in l.counts { *self.counts.entry(k).or_default() += v; }
            for (k, v) in l.known { *self.known.entry(k).or_default() += v; }
            for (k, v) in l.sets { self.sets.entry(k).or_default().extend(v); }
            distinct.extend(l.distinct);
            evals += l.evals;
            for s in l.samples { if self.samples.len() < 40 { self.samples.push(json!({"section": name, "case": s})); } }
        }
        let mut vs = viols.into_inner().unwrap();
        vs.sort_by_key(|v| v.0);
        let nv = vs.len();
        for (i, v) in vs { self.violations.push((name.into(), i, v)); }
        self.sections.push(json!({"section": name, "evaluations": evals, "distinct_nontrivial": distinct.len(), "violations": nv, "wall_s": t.elapsed().as_secs_f64()}));
        self.rules.push(format!("{}: {}", name, rule));
        self.evals += evals;
        self.distinct.extend(distinct.into_iter().map(|h| crate::rng::mix(h ^ hash_bytes(name.as_bytes()))));
    }

    fn emit_violation(&self, section: &str, idx: u64, v: &Violation) {
        let _ = std::fs::create_dir_all(&self.replay_dir);
        let path = format!("{}/{}-{}.json", self.replay_dir, self.prop, crate::rng::mix(hash_bytes(v.sig.as_bytes()) ^ idx ^ hash_bytes(std::env::var("VERIF_REPLAY_EXTRA").unwrap_or_default().as_bytes())) % 1_000_000);
        let extra: Value = std::env::var("VERIF_REPLAY_EXTRA").ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": self.prop, "extra": extra, "seed": self.seed, "tier": if self.thorough { "thorough" } else { "quick" }, "section": section, "index": idx, "signature": v.sig, "detail": v.detail})).unwrap());
        println!("VIOLATION property={} replay={}", self.prop, path);
        println!("  section {} case {}: {} -- {}", section, idx, v.sig, crop(&v.detail, 1500));
    }

    /// Requires that the monitors saw at least `min` of an event; otherwise the run is inconclusive.
    pub fn require(&self, key: &str, min: u64) {
        if self.replay.is_some() || !self.violations.is_empty() { return; }
        let have = self.counts.get(key).copied().unwrap_or(0);
        if have < min { eprintln!("HARNESS-ERROR inconclusive: observed {} of '{}', need {}", have, key, min); std::process::exit(2); }
    }
    pub fn count(&mut self, k: &str, n: u64) { *self.counts.entry(k.into()).or_default() += n }

    pub fn finish(mut self) -> ! {
        if self.replay.is_some() {
            for (s, i, v) in &self.violations { self.emit_violation(s, *i, v); }
            std::process::exit(if self.violations.is_empty() { 0 } else { 1 });
        }
        let known_list: Vec<(String, String)> = KNOWN.lock().unwrap().clone();
        for (sig, what) in &known_list {
            let n = self.known.get(sig).copied().unwrap_or(0);
            if n > 0 { println!("KNOWN-FINDING: property={} {} [observed {} times]", self.prop, what, n); }
        }
        self.violations.sort_by(|a, b| (a.2.sig.len(), a.1).cmp(&(b.2.sig.len(), b.1)));
        let mut seen = HashSet::new();
        for (s, i, v) in &self.violations {
            if seen.insert(v.sig.clone()) && seen.len() <= 5 { self.emit_violation(s, *i, v); }
        }
        let sets: BTreeMap<String, usize> = self.sets.iter().map(|(k, v)| (k.clone(), v.len())).collect();
        let known: BTreeMap<&String, u64> = self.known.iter().map(|(k, v)| (k, *v)).collect();
        let mut cov = json!({
            "evaluations": self.evals, "distinct_nontrivial": self.distinct.len(), "rule": self.rules.join(" | "),
            "samples": self.samples, "sections": self.sections, "observed_events": self.counts, "distinct_states": sets,
            "known_findings_observed": known,
        });
        if self.exhaustive { cov["exhaustive"] = json!(true); }
        let ev = json!({"property": self.prop, "tier": if self.thorough { "thorough" } else { "quick" }, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions, "wall_s": self.t0.elapsed().as_secs_f64(), "violations": self.violations.len()});
        let _ = std::fs::create_dir_all(std::path::Path::new(&self.out).parent().unwrap());
        std::fs::write(&self.out, serde_json::to_string_pretty(&ev).unwrap()).expect("harness: evidence");
        println!("{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s", self.prop, self.evals, self.distinct.len(), self.violations.len(), self.t0.elapsed().as_secs_f64());
        std::process::exit(if self.violations.is_empty() { 0 } else { 1 });
    }
}
pub fn crop(s: &str, n: usize) -> String { if s.len() <= n { s.to_string() } else { let mut e = n; while !s.is_char_boundary(e) { e -= 1 } format!("{}... ({} bytes)", &s[..e], s.len()) } }
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() { if i == 400 { s.push_str(&format!("..({} bytes)", b.len())); break; } s.push_str(&format!("{:02x}", x)); }
    s
}
