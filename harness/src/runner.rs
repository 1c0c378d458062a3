//! Drives generated cases, shrinks failures, counts what was covered, writes evidence and
//! replay files.

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;

pub const SHARDS: u64 = 8;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = format!("{i}");
        if !IN_LIB.with(|f| f.get()) && std::env::var("GPTV_LOUD").is_ok() {
            eprintln!("{msg}");
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = msg);
    }));
}

// ---------------------------------------------------------------------------------------
// Cases that do not return: a watchdog for endless loops, a handler for fatal signals

struct Slot {
    /// CPU time of the thread when the case began
    since: Option<f64>,
    clock: libc::clockid_t,
    id: String,
    sub: String,
    seed: u64,
    case: String,
}

static SLOTS: Mutex<Vec<&'static Mutex<Slot>>> = Mutex::new(Vec::new());

thread_local! {
    static SLOT: Cell<Option<&'static Mutex<Slot>>> = const { Cell::new(None) };
}

/// Longest CPU time a single case may take. Cases take milliseconds.
const STALL_S: f64 = 100.0;

fn cpu(clock: libc::clockid_t) -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut t) != 0 {
            return 0.0;
        }
        t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
    }
}

fn my_clock() -> libc::clockid_t {
    let mut c: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
    c
}

fn slot() -> &'static Mutex<Slot> {
    SLOT.with(|s| match s.get() {
        Some(x) => x,
        None => {
            let x: &'static Mutex<Slot> = Box::leak(Box::new(Mutex::new(Slot {
                since: None,
                clock: my_clock(),
                id: String::new(),
                sub: String::new(),
                seed: 0,
                case: String::new(),
            })));
            SLOTS.lock().unwrap().push(x);
            s.set(Some(x));
            x
        }
    })
}

fn enter_case(ctx: &Ctx, sub: &str, case: String) {
    let mut s = slot().lock().unwrap();
    if s.id != ctx.id {
        s.id = ctx.id.clone();
    }
    if s.sub != sub {
        s.sub = sub.to_string();
    }
    s.seed = ctx.seed;
    s.case = case;
    s.since = Some(cpu(s.clock));
}

fn leave_case() -> String {
    let mut s = slot().lock().unwrap();
    s.since = None;
    std::mem::take(&mut s.case)
}

fn report_lost(s: &Slot, msg: &str) {
    let case: Value = serde_json::from_str(&s.case).unwrap_or(Value::Null);
    let path = write_replay(&s.id, &s.sub, s.seed, msg, &case);
    println!("{}: {msg}", s.sub);
    println!("VIOLATION property={} replay={}", s.id, path.display());
}

extern "C" fn on_signal(sig: i32) {
    unsafe {
        libc::signal(sig, libc::SIG_DFL);
    }
    if let Some(s) = SLOT.with(|s| s.get()) {
        if let Ok(s) = s.try_lock() {
            if s.since.is_some() {
                report_lost(&s, &format!("the process received signal {sig} (abort, stack overflow or a crash)"));
                unsafe { libc::_exit(1) };
            }
        }
    }
    unsafe {
        libc::raise(sig);
    }
}

/// Reports a case that never returns, or that takes the process down.
pub fn start_watchdog() {
    unsafe {
        for sig in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(sig, &a, std::ptr::null_mut());
        }
    }
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let slots: Vec<_> = SLOTS.lock().unwrap().clone();
        for s in slots {
            if let Ok(s) = s.try_lock() {
                if s.since.is_some_and(|t| cpu(s.clock) - t > STALL_S) {
                    report_lost(&s, &format!("the case did not finish within {STALL_S} s of CPU time (endless loop)"));
                    unsafe { libc::_exit(1) };
                }
            }
        }
    });
}

fn write_replay(id: &str, sub: &str, seed: u64, msg: &str, case: &Value) -> std::path::PathBuf {
    let js = json!({"property": id, "sub": sub, "seed": seed, "message": msg, "case": case});
    let text = serde_json::to_string_pretty(&js).unwrap();
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:08x}.json", id, hash_str(&text) as u32));
    let _ = std::fs::write(&path, text + "\n");
    path
}

/// Runs library code. A panic in it becomes an `Err` naming it.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    IN_LIB.with(|x| x.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|x| x.set(false));
    r.map_err(|_| format!("{what} panicked: {}", LAST_PANIC.with(|l| l.borrow().replace('\n', " "))))
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub excluded: u64,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<Value>,
}

/// Handed to every case: records labels and whether the case was non-trivial.
#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    pub excluded: u64,
    pub labels: Vec<&'static str>,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn nt(&mut self, l: &'static str) {
        self.nontrivial = true;
        self.labels.push(l);
    }
}

pub struct Violation {
    pub sub: String,
    pub case: Value,
    pub msg: String,
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub start: Instant,
    pub stats: Mutex<BTreeMap<String, Stats>>,
    pub violations: Mutex<Vec<Violation>>,
    pub harness_errors: Mutex<Vec<String>>,
    pub known: Mutex<Vec<String>>,
    pub rule: Mutex<Vec<String>>,
    pub assumptions: Mutex<Vec<String>>,
    /// replay: (sub, case)
    pub replay: Option<(String, Value)>,
}

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 30;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn short(v: Value) -> Value {
    let s = v.to_string();
    if s.len() > 1800 {
        let mut e = 1800;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        json!(format!("{}… ({} bytes of JSON)", &s[..e], s.len()))
    } else {
        v
    }
}

impl Ctx {
    pub fn rule(&self, s: &str) {
        self.rule.lock().unwrap().push(s.to_string());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }

    pub fn cases(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough { thorough } else { quick };
        ((n as f64 * self.scale) as u64).max(SHARDS)
    }

    /// Explores `cases` generated cases of `strategy` in parallel shards, deterministically in
    /// the seed. `f` is the oracle.
    pub fn explore<S>(
        &self,
        sub: &str,
        cases: u64,
        strategy: impl Fn() -> S + Sync,
        f: impl Fn(&S::Value, &mut Cx) -> Result<(), String> + Sync,
    ) where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Clone + Send + std::fmt::Debug,
    {
        if let Some((rsub, case)) = &self.replay {
            if rsub != sub {
                return;
            }
            let v: S::Value = serde_json::from_value(case.clone()).expect("replay case does not parse");
            let mut cx = Cx::default();
            if let Err(m) = f(&v, &mut cx) {
                self.violations.lock().unwrap().push(Violation { sub: sub.into(), case: case.clone(), msg: m });
            }
            return;
        }
        if !self.violations.lock().unwrap().is_empty() {
            return;
        }
        let per = cases.div_ceil(SHARDS);
        let stop = std::sync::atomic::AtomicBool::new(false);
        let results: Vec<(Stats, Option<(S::Value, String)>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..SHARDS)
                .map(|sh| {
                    let (strategy, f, stop) = (&strategy, &f, &stop);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || self.shard(sub, per, sh, strategy(), f, stop))
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("shard thread died")).collect()
        });
        let mut total = Stats::default();
        for (st, v) in results {
            total.evaluations += st.evaluations;
            total.excluded += st.excluded;
            for (k, n) in st.labels {
                *total.labels.entry(k).or_default() += n;
            }
            total.nontrivial.extend(st.nontrivial);
            if total.samples.len() < 3 {
                total.samples.extend(st.samples.into_iter().take(1));
            }
            if let Some((case, msg)) = v {
                self.violations.lock().unwrap().push(Violation {
                    sub: sub.to_string(),
                    case: serde_json::to_value(&case).unwrap(),
                    msg,
                });
            }
        }
        self.stats.lock().unwrap().insert(sub.to_string(), total);
    }

    fn shard<S>(
        &self,
        sub: &str,
        cases: u64,
        shard: u64,
        strategy: S,
        f: &(impl Fn(&S::Value, &mut Cx) -> Result<(), String> + Sync),
        stop: &std::sync::atomic::AtomicBool,
    ) -> (Stats, Option<(S::Value, String)>)
    where
        S: Strategy,
        S::Value: Serialize + Clone + std::fmt::Debug,
    {
        let seed = mix(mix(self.seed, hash_str(&self.id)), mix(hash_str(sub), shard));
        let cfg = Config {
            cases: cases.min(u32::MAX as u64) as u32,
            failure_persistence: None,
            rng_algorithm: RngAlgorithm::ChaCha,
            rng_seed: RngSeed::Fixed(seed),
            max_shrink_iters: 3000,
            max_shrink_time: 40_000,
            max_global_rejects: 1 << 30,
            max_local_rejects: 1 << 30,
            verbose: 0,
            ..Config::default()
        };
        let stats = RefCell::new(Stats::default());
        let failing = Cell::new(false);
        let broken = Cell::new(false);
        let msg = RefCell::new(String::new());
        let mut runner = TestRunner::new(cfg);
        let res = runner.run(&strategy, |case| {
            // another shard has found a violation, this one is done
            if broken.get() || (!failing.get() && stop.load(std::sync::atomic::Ordering::Relaxed)) {
                return Ok(());
            }
            let mut cx = Cx::default();
            enter_case(self, sub, serde_json::to_string(&case).unwrap());
            let r = catch_unwind(AssertUnwindSafe(|| f(&case, &mut cx)));
            let js = leave_case();
            let r = match r {
                Ok(r) => r,
                Err(_) => {
                    // a panic outside of library code: the harness is wrong, not the library
                    broken.set(true);
                    let m = LAST_PANIC.with(|l| l.borrow().clone());
                    self.harness_errors.lock().unwrap().push(format!(
                        "{sub}: {m}\ncase: {js}"
                    ));
                    return Ok(());
                }
            };
            if !failing.get() {
                let mut st = stats.borrow_mut();
                st.evaluations += 1;
                st.excluded += cx.excluded;
                cx.labels.sort_unstable();
                cx.labels.dedup();
                for l in &cx.labels {
                    *st.labels.entry(l.to_string()).or_default() += 1;
                }
                if cx.nontrivial {
                    let h = hash_str(&js);
                    if st.nontrivial.insert(h) && st.samples.is_empty() && st.evaluations > 5 {
                        st.samples.push(short(serde_json::from_str(&js).unwrap()));
                    }
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(m) => {
                    failing.set(true);
                    stop.store(true, std::sync::atomic::Ordering::Relaxed);
                    *msg.borrow_mut() = m.clone();
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let v = match res {
            Ok(()) => None,
            Err(TestError::Fail(reason, case)) => Some((case, reason.message().to_string())),
            Err(TestError::Abort(r)) => {
                self.harness_errors.lock().unwrap().push(format!("{sub}: generation aborted: {r}"));
                None
            }
        };
        (stats.into_inner(), v)
    }

    /// Checks a finite list of cases (an enumeration).
    pub fn enumerate<T>(
        &self,
        sub: &str,
        items: Vec<T>,
        f: impl Fn(&T, &mut Cx) -> Result<(), String> + Sync,
    ) where
        T: Serialize + DeserializeOwned + Clone + Send + Sync,
    {
        if let Some((rsub, case)) = &self.replay {
            if rsub != sub {
                return;
            }
            let v: T = serde_json::from_value(case.clone()).expect("replay case does not parse");
            let mut cx = Cx::default();
            if let Err(m) = f(&v, &mut cx) {
                self.violations.lock().unwrap().push(Violation { sub: sub.into(), case: case.clone(), msg: m });
            }
            return;
        }
        if !self.violations.lock().unwrap().is_empty() {
            return;
        }
        let next = std::sync::atomic::AtomicUsize::new(0);
        let total = Mutex::new(Stats::default());
        let first: Mutex<Option<(usize, String)>> = Mutex::new(None);
        std::thread::scope(|sc| {
            for _ in 0..SHARDS {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if i >= items.len() {
                            break;
                        }
                        let mut cx = Cx::default();
                        enter_case(self, sub, serde_json::to_string(&items[i]).unwrap());
                        let r = catch_unwind(AssertUnwindSafe(|| f(&items[i], &mut cx)));
                        let js = leave_case();
                        let mut st = total.lock().unwrap();
                        st.evaluations += 1;
                        st.excluded += cx.excluded;
                        cx.labels.sort_unstable();
                        cx.labels.dedup();
                        for l in &cx.labels {
                            *st.labels.entry(l.to_string()).or_default() += 1;
                        }
                        if cx.nontrivial {
                            if st.nontrivial.insert(hash_str(&js)) && st.samples.len() < 2 {
                                st.samples.push(short(serde_json::from_str(&js).unwrap()));
                            }
                        }
                        drop(st);
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(m)) => {
                                let mut g = first.lock().unwrap();
                                if g.as_ref().map_or(true, |(j, _)| i < *j) {
                                    *g = Some((i, m));
                                }
                            }
                            Err(_) => {
                                let m = LAST_PANIC.with(|l| l.borrow().clone());
                                self.harness_errors.lock().unwrap().push(format!("{sub}: {m}"));
                            }
                        }
                    })
                    .unwrap();
            }
        });
        if let Some((i, m)) = first.into_inner().unwrap() {
            self.violations.lock().unwrap().push(Violation {
                sub: sub.to_string(),
                case: serde_json::to_value(&items[i]).unwrap(),
                msg: m,
            });
        }
        self.stats.lock().unwrap().insert(sub.to_string(), total.into_inner().unwrap());
    }

    /// A listed genuine defect: runs its history; reports it as known if it (still) fails.
    pub fn known_finding(&self, key: &str, what: &str, fails: impl FnOnce() -> Result<bool, String>) {
        if self.replay.is_some() {
            return;
        }
        if !known_listed(&self.id, key) {
            return;
        }
        match fails() {
            Ok(true) => self.known.lock().unwrap().push(format!("{key}: {what}")),
            Ok(false) => {}
            Err(m) => self.harness_errors.lock().unwrap().push(m),
        }
    }
}

/// Is the finding listed (not fixed) in known_findings.jsonl?
pub fn known_listed(id: &str, key: &str) -> bool {
    // next to the harness, wherever the output goes
    let p = concat!(env!("CARGO_MANIFEST_DIR"), "/../known_findings.jsonl");
    let Ok(s) = std::fs::read_to_string(p) else { return false };
    s.lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .any(|v| v["status"] == "open" && v["property"] == id && v["key"] == key)
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("GPTV_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

impl Ctx {
    pub fn new(id: &str, seed: u64, thorough: bool, replay: Option<(String, Value)>) -> Ctx {
        let scale = std::env::var("GPTV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        Ctx {
            id: id.to_string(),
            seed,
            thorough,
            scale,
            start: Instant::now(),
            stats: Default::default(),
            violations: Default::default(),
            harness_errors: Default::default(),
            known: Default::default(),
            rule: Default::default(),
            assumptions: Default::default(),
            replay,
        }
    }

    /// Prints the outcome, writes evidence and replay files; returns the exit code.
    pub fn finish(self) -> i32 {
        let stats = self.stats.into_inner().unwrap();
        let violations = self.violations.into_inner().unwrap();
        let errs = self.harness_errors.into_inner().unwrap();
        let known = self.known.into_inner().unwrap();
        let dir = verif_dir();
        if self.replay.is_some() {
            for v in &violations {
                println!("replay reproduces: {}: {}", v.sub, v.msg);
            }
            if violations.is_empty() {
                println!("replay: the case passes on this tree");
            }
            return if violations.is_empty() { 0 } else { 1 };
        }
        let mut evals = 0;
        let mut nt = 0;
        let mut samples = vec![];
        let mut subs = serde_json::Map::new();
        for (k, s) in &stats {
            evals += s.evaluations;
            nt += s.nontrivial.len() as u64;
            samples.extend(s.samples.iter().take(2).map(|c| json!({"generator": k, "case": c})));
            subs.insert(
                k.clone(),
                json!({"evaluations": s.evaluations, "distinct_nontrivial": s.nontrivial.len(),
                       "excluded_known": s.excluded, "classes": s.labels}),
            );
        }
        samples.truncate(8);
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": nt,
                "rule": self.rule.into_inner().unwrap().join(" "),
                "samples": samples,
                "generators": subs,
                "known_findings_reproduced": known,
            },
            "assumptions": self.assumptions.into_inner().unwrap(),
            "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": violations.len(),
        });
        let _ = std::fs::create_dir_all(dir.join("evidence"));
        if let Err(e) = std::fs::write(
            dir.join("evidence").join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        ) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
        for k in &known {
            println!("KNOWN-FINDING: property={} {}", self.id, k);
        }
        let mut code = 0;
        for v in violations.iter().take(3) {
            let path = write_replay(&self.id, &v.sub, self.seed, &v.msg, &v.case);
            println!("{}: {}", v.sub, v.msg);
            println!("VIOLATION property={} replay={}", self.id, path.display());
            code = 1;
        }
        if code == 0 && !errs.is_empty() {
            for e in errs.iter().take(3) {
                eprintln!("HARNESS ERROR {e}");
            }
            return 2;
        }
        if code == 0 {
            println!(
                "{}: held on {} cases ({} distinct non-trivial) in {:.1}s",
                self.id,
                evals,
                nt,
                self.start.elapsed().as_secs_f64()
            );
        }
        code
    }
}
