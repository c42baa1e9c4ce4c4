//! Runner for generated checks: seeds, parallel workers, statistics, shrinking, replay files, evidence.
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What one case exercised.
#[derive(Default, Clone, Debug)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// Signatures of listed known findings that this case ran into.
    pub known: Vec<String>,
}

impl Info {
    pub fn trivial() -> Self {
        Info::default()
    }
    pub fn nontrivial(yes: bool) -> Self {
        Info { nontrivial: yes, ..Default::default() }
    }
    pub fn label(mut self, l: &str) -> Self {
        self.labels.push(l.to_string());
        self
    }
    pub fn label_if(self, c: bool, l: &str) -> Self {
        if c {
            self.label(l)
        } else {
            self
        }
    }
}

pub type Verdict = Result<Info, String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => { if !$cond { return Err(format!($($arg)+)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b)); }
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Makes panics silent and remembers their message for `guarded`.
pub fn install_quiet_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = msg);
    }));
}

fn panic_text(p: &(dyn Any + Send)) -> String {
    let last = LAST_PANIC.with(|p| p.borrow().clone());
    if !last.is_empty() {
        return last;
    }
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Runs code under test; a panic becomes `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| panic_text(&*p))
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
}

pub struct Failure {
    pub check: String,
    pub message: String,
    pub value: Value,
    pub debug: String,
}

impl Failure {
    /// Writes the replay file, prints the violation and exits.
    fn report(self, root: &std::path::Path, id: &str, seed: u64, write: bool) -> ! {
        let path = root.join("build").join("replays").join(format!("{id}-{seed}.json"));
        if write {
            std::fs::create_dir_all(path.parent().unwrap()).expect("cannot create build/replays");
            let replay = json!({"property": id, "check": self.check, "message": self.message, "input": self.value, "readable": self.debug});
            std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap()).expect("cannot write the replay file");
        }
        println!("{id} [{}]: {}", self.check, clip(&self.message, 3000));
        println!("minimal input: {}", clip(&self.debug, 3000));
        println!("VIOLATION property={id} replay={}", path.display());
        std::process::exit(1)
    }
}

/// A quick run starts no more cases after this time, however slow the machine is.
const QUICK_LIMIT: Duration = Duration::from_secs(420);
/// A case takes milliseconds; one that takes this long hangs.
const CASE_LIMIT: Duration = Duration::from_secs(120);
struct Busy(*const ());
// SAFETY: only dereferenced while the slot that holds it is locked.
unsafe impl Send for Busy {}

/// The code under test logs to standard output: keep that away from the verdict lines.
static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
fn mute() {
    if std::env::var("PBT_VERBOSE").is_ok() || OUT.load(Ordering::Relaxed) >= 0 {
        return;
    }
    // SAFETY: plain file descriptor operations on descriptors this process owns.
    unsafe {
        let saved = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if saved >= 0 && null >= 0 {
            libc::dup2(null, 1);
            libc::close(null);
            OUT.store(saved, Ordering::Relaxed);
        }
    }
}
/// Ends the muting.
fn unmute() {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let saved = OUT.swap(-1, Ordering::Relaxed);
    if saved >= 0 {
        // SAFETY: `saved` is the descriptor kept by `mute`.
        unsafe {
            libc::dup2(saved, 1);
            libc::close(saved);
        }
    }
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    root: PathBuf,
    start: Instant,
    stats: BTreeMap<String, Stats>,
    rules: Vec<String>,
    assumptions: Vec<String>,
    failure: Option<Failure>,
    replay: Option<(String, Value)>,
    replayed: bool,
    workers: usize,
}

fn hash64(bytes: &[u8]) -> u64 {
    // FNV-1a with a final mix; stable across runs.
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^ (h >> 33)
}

fn rng(seed: u64, id: &str, name: &str, worker: usize) -> TestRng {
    let mut s = [0u8; 32];
    for i in 0..4u64 {
        let key = format!("{seed}/{id}/{name}/{worker}/{i}");
        s[i as usize * 8..][..8].copy_from_slice(&hash64(key.as_bytes()).to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &s)
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut end = n;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    format!("{}… ({} bytes)", &s[..end], s.len())
}

impl Ctx {
    /// Arguments: `--replay FILE`. Environment: VERIF_SEED, VERIF_TIER, VERIF_ROOT.
    pub fn new(id: &str) -> Ctx {
        install_quiet_hook();
        mute();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let args: Vec<String> = std::env::args().collect();
        let replay = args.iter().position(|a| a == "--replay").map(|i| {
            let text = std::fs::read_to_string(&args[i + 1]).expect("cannot read the replay file");
            let v: Value = serde_json::from_str(&text).expect("the replay file is not JSON");
            (v["check"].as_str().expect("no check in the replay file").to_string(), v["input"].clone())
        });
        Ctx {
            id: id.into(),
            seed,
            thorough,
            root: root.into(),
            start: Instant::now(),
            stats: BTreeMap::new(),
            rules: vec![],
            assumptions: vec![],
            failure: None,
            replay,
            replayed: false,
            workers: 8,
        }
    }

    pub fn assume(&mut self, text: &str) {
        self.assumptions.push(text.into());
    }

    /// Runs `cases` generated cases (more when thorough) of one named check. `rule` says how cases are made
    /// and which count as non-trivial.
    pub fn check<S, T>(&mut self, name: &str, rule: &str, cases: u32, strategy: impl Fn() -> S + Sync, test: T)
    where
        S: Strategy,
        S::Value: Debug + Serialize + DeserializeOwned,
        T: Fn(&S::Value) -> Verdict + Sync,
    {
        self.check_with(name, rule, cases, 20, 20_000, strategy, test)
    }

    #[allow(clippy::too_many_arguments)]
    pub fn check_with<S, T>(&mut self, name: &str, rule: &str, cases: u32, factor: u32, shrink: u32, strategy: impl Fn() -> S + Sync, test: T)
    where
        S: Strategy,
        S::Value: Debug + Serialize + DeserializeOwned,
        T: Fn(&S::Value) -> Verdict + Sync,
    {
        if let Some((check, input)) = &self.replay {
            if check == name {
                self.replayed = true;
                let v: S::Value = serde_json::from_value(input.clone()).expect("the replay input does not fit this check");
                match guarded(|| test(&v)).unwrap_or_else(|p| Err(format!("panicked: {p}"))) {
                    Ok(_) => eprintln!("replay: holds"),
                    Err(m) => {
                        eprintln!("replay: {m}");
                        self.failure = Some(Failure { check: name.into(), message: m, value: input.clone(), debug: format!("{v:?}") });
                    }
                }
            }
            return;
        }
        if self.failure.is_some() {
            return;
        }
        let total = if self.thorough { cases.saturating_mul(factor) } else { cases };
        let per = total.div_ceil(self.workers as u32);
        self.rules.push(format!("{name}: {rule}"));
        let stop = AtomicBool::new(false);
        let deadline = (!self.thorough).then(|| self.start + QUICK_LIMIT);
        // The case each worker is busy with; the pointer is valid while it is there.
        let slots: Vec<Mutex<Option<(Instant, Busy)>>> = (0..self.workers).map(|_| Mutex::new(None)).collect();
        let running = AtomicUsize::new(self.workers);
        let all: Mutex<BTreeMap<usize, (Stats, Option<Failure>)>> = Mutex::new(BTreeMap::new());
        let (seed, id) = (self.seed, self.id.clone());
        let root = self.root.clone();
        std::thread::scope(|scope| {
            {
                let (slots, running, id, root) = (&slots, &running, &id, &root);
                scope.spawn(move || {
                    while running.load(Ordering::Relaxed) > 0 {
                        std::thread::sleep(Duration::from_millis(100));
                        for slot in slots {
                            let held = slot.lock().unwrap();
                            if let Some((since, busy)) = &*held {
                                if since.elapsed() > CASE_LIMIT {
                                    // SAFETY: the worker clears the slot, which we hold, before it drops the value.
                                    let v = unsafe { &*(busy.0 as *const S::Value) };
                                    unmute();
                                    Failure {
                                        check: name.to_string(),
                                        message: format!("the code under test does not come back within {} s", CASE_LIMIT.as_secs()),
                                        value: serde_json::to_value(v).unwrap_or(Value::Null),
                                        debug: format!("{v:?}"),
                                    }
                                    .report(root, id, seed, true);
                                }
                            }
                        }
                    }
                });
            }
            for w in 0..self.workers {
                let (stop, all, strategy, test, id) = (&stop, &all, &strategy, &test, &id);
                let (slot, running) = (&slots[w], &running);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        let stats = RefCell::new(Stats::default());
                        let failed = RefCell::new(false);
                        let config = Config {
                            cases: per,
                            failure_persistence: None,
                            max_shrink_iters: shrink,
                            max_shrink_time: 60_000,
                            max_global_rejects: 100_000,
                            source_file: None,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(config, rng(seed, id, name, w));
                        let strat = strategy();
                        let mut last_msg = RefCell::new(String::new());
                        let res = runner.run(&strat, |v| {
                            if (stop.load(Ordering::Relaxed) || deadline.is_some_and(|d| Instant::now() > d)) && !*failed.borrow() {
                                return Ok(());
                            }
                            *slot.lock().unwrap() = Some((Instant::now(), Busy(&v as *const S::Value as *const ())));
                            LAST_PANIC.with(|p| p.borrow_mut().clear());
                            let r = guarded(|| test(&v)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
                            *slot.lock().unwrap() = None;
                            match r {
                                Ok(info) => {
                                    if !*failed.borrow() {
                                        let mut s = stats.borrow_mut();
                                        s.evaluations += 1;
                                        for l in &info.labels {
                                            *s.labels.entry(l.clone()).or_default() += 1;
                                        }
                                        for l in &info.known {
                                            *s.known.entry(l.clone()).or_default() += 1;
                                        }
                                        if info.nontrivial {
                                            s.nontrivial += 1;
                                            let d = format!("{v:?}");
                                            s.distinct.insert(hash64(d.as_bytes()));
                                            if s.samples.len() < 1 {
                                                s.samples.push(clip(&d, 1500));
                                            }
                                        }
                                    }
                                    Ok(())
                                }
                                Err(m) => {
                                    *failed.borrow_mut() = true;
                                    stop.store(true, Ordering::Relaxed);
                                    *last_msg.borrow_mut() = m.clone();
                                    Err(TestCaseError::fail(m))
                                }
                            }
                        });
                        let failure = match res {
                            Ok(()) => None,
                            Err(TestError::Fail(reason, v)) => Some(Failure {
                                check: name.to_string(),
                                message: reason.message().to_string(),
                                value: serde_json::to_value(&v).unwrap_or(Value::Null),
                                debug: format!("{v:?}"),
                            }),
                            Err(TestError::Abort(reason)) => {
                                eprintln!("{id}: generator of {name} gave up: {reason}");
                                std::process::exit(3);
                            }
                        };
                        last_msg.get_mut().clear();
                        running.fetch_sub(1, Ordering::Relaxed);
                        all.lock().unwrap().insert(w, (stats.into_inner(), failure));
                    })
                    .expect("cannot start a worker");
            }
        });
        let into = self.stats.entry(name.to_string()).or_default();
        for (_, (s, f)) in all.into_inner().unwrap() {
            into.evaluations += s.evaluations;
            into.nontrivial += s.nontrivial;
            into.distinct.extend(s.distinct);
            for (k, n) in s.labels {
                *into.labels.entry(k).or_default() += n;
            }
            for (k, n) in s.known {
                *into.known.entry(k).or_default() += n;
            }
            if into.samples.len() < 2 {
                into.samples.extend(s.samples);
            }
            if self.failure.is_none() {
                self.failure = f;
            }
        }
    }

    pub fn failed(&self) -> bool {
        self.failure.is_some()
    }

    /// Writes evidence, prints the outcome and exits.
    pub fn finish(self) -> ! {
        unmute();
        let tier = if self.thorough { "thorough" } else { "quick" };
        if self.replay.is_some() && !self.replayed {
            eprintln!("{}: the replay file names no check of this property", self.id);
            std::process::exit(3);
        }
        let mut samples = vec![];
        let mut per = serde_json::Map::new();
        let (mut evaluations, mut distinct) = (0, 0);
        let mut known: BTreeMap<String, u64> = BTreeMap::new();
        for (name, s) in &self.stats {
            evaluations += s.evaluations;
            distinct += s.distinct.len() as u64;
            for (k, n) in &s.known {
                *known.entry(k.clone()).or_default() += n;
            }
            per.insert(
                name.clone(),
                json!({"evaluations": s.evaluations, "nontrivial": s.nontrivial, "distinct_nontrivial": s.distinct.len(), "labels": s.labels}),
            );
            for x in &s.samples {
                samples.push(json!({"check": name, "input": x}));
            }
        }
        let evidence = json!({
            "property": self.id,
            "tier": tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": distinct,
                "rule": self.rules.join(" | "),
                "samples": samples,
                "checks": per,
                "known_findings_hit": known,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": if self.failure.is_some() { 1 } else { 0 },
        });
        if self.replay.is_none() {
            let path = self.root.join("evidence").join(format!("{}.json", self.id));
            std::fs::create_dir_all(path.parent().unwrap()).expect("cannot create evidence/");
            std::fs::write(&path, serde_json::to_string_pretty(&evidence).unwrap()).expect("cannot write evidence");
        }
        for k in known.keys() {
            println!("KNOWN-FINDING: property={} {}", self.id, k);
        }
        match self.failure {
            None => {
                println!("{}: held on {} cases ({} distinct non-trivial) in {:.1} s", self.id, evaluations, distinct, self.start.elapsed().as_secs_f64());
                std::process::exit(0)
            }
            Some(f) => f.report(&self.root, &self.id, self.seed, self.replay.is_none()),
        }
    }
}
