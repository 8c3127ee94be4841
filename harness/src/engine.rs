//! Generic machinery: proptest-driven sub-checks, sharding, evidence, replay
//! files and crash isolation.
//!
//! A property is a list of sub-checks. Each sub-check is a strategy producing
//! a serialisable case and a predicate deciding it against an oracle that
//! lives in this crate. A run is a pure function of (code, seed, tier).
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type CheckResult = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one evaluation of a predicate observed about its case
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}

impl Obs {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        if b {
            self.nontrivial = true;
        }
    }
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.classes.push(c);
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err(format!($($arg)*));
        }
    };
}

#[derive(Default, Serialize, Deserialize)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    #[serde(skip)]
    pub hashes: HashSet<u64>,
    pub distinct_nontrivial: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Failure {
    pub sub: String,
    pub reason: String,
    pub case: serde_json::Value,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

pub fn install_quiet_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if DEPTH.with(|d| d.get()) == 0 {
            eprintln!("harness error: panicked at {}: {}", loc, msg);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {}: {}", loc, msg)));
    }));
}

/// Run `f`, turning a panic into Err(message)
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    DEPTH.with(|d| d.set(d.get() - 1));
    match r {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panicked".into())),
    }
}

/// True if `f` panics
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    guarded(f).is_err()
}

pub struct Journal {
    pub file: std::fs::File,
    pub n: u64,
}

pub struct ShardOpts<'a> {
    pub seed: u64,
    pub prop: &'a str,
    pub shard: u32,
    pub nshards: u32,
    pub tier: Tier,
    /// Number of cases is multiplied by this percentage
    pub scale_pct: u64,
    pub journal: Option<std::fs::File>,
    /// No new case is evaluated after this instant (slow machines report
    /// less coverage instead of no answer)
    pub deadline: Option<std::time::Instant>,
    /// Crash shrinking: skip cases before this index and run the rest in a
    /// child process through the given callback (true = the child died)
    #[allow(clippy::type_complexity)]
    pub crash: Option<(u64, &'a dyn Fn(&serde_json::Value) -> bool)>,
}

fn past_deadline(d: Option<std::time::Instant>) -> bool {
    match d {
        Some(d) => std::time::Instant::now() > d,
        None => false,
    }
}

pub trait AnySub: Send + Sync {
    fn name(&self) -> &'static str;
    fn run_shard(&self, o: &ShardOpts, st: &mut Stats) -> Option<Failure>;
    fn replay(&self, case: &serde_json::Value) -> CheckResult;
}

pub struct Sub<C> {
    name: &'static str,
    strat: Box<dyn Fn(Tier) -> BoxedStrategy<C> + Send + Sync>,
    check: fn(&C, &mut Obs) -> CheckResult,
    quick: u32,
    thorough: u32,
}

/// A generated sub-check with `quick` cases in the quick tier and
/// `quick * factor` in the thorough tier
pub fn sub<C, S>(
    name: &'static str,
    quick: u32,
    factor: u32,
    strat: impl Fn() -> S + Send + Sync + 'static,
    check: fn(&C, &mut Obs) -> CheckResult,
) -> Box<dyn AnySub>
where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
    S: Strategy<Value = C> + 'static,
{
    Box::new(Sub {
        name,
        strat: Box::new(move |_| strat().boxed()),
        check,
        quick,
        thorough: quick.saturating_mul(factor),
    })
}

fn hash64(bytes: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    bytes.hash(&mut h);
    h.finish()
}

fn shard_rng(seed: u64, prop: &str, sub: &str, shard: u32) -> TestRng {
    // expand with splitmix from a hash of the identifiers
    let mut x = hash64(format!("{}/{}/{}/{}", seed, prop, sub, shard).as_bytes());
    let mut key = [0u8; 32];
    for chunk in key.chunks_mut(8) {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        chunk.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &key)
}

fn eval<C>(check: fn(&C, &mut Obs) -> CheckResult, c: &C, obs: &mut Obs) -> CheckResult {
    match guarded(|| check(c, obs)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

fn clip(s: String) -> String {
    if s.len() > 1500 {
        let mut e = 1500;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    } else {
        s
    }
}

impl Stats {
    fn record(&mut self, obs: &Obs, json: impl Fn() -> String) {
        self.evaluations += 1;
        for c in &obs.classes {
            *self.classes.entry(c.to_string()).or_insert(0) += 1;
        }
        if obs.nontrivial {
            self.nontrivial += 1;
            let j = json();
            self.hashes.insert(hash64(j.as_bytes()));
            if self.samples.len() < 2 {
                self.samples.push(clip(j));
            }
        }
    }
}

impl<C> AnySub for Sub<C>
where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn run_shard(&self, o: &ShardOpts, st: &mut Stats) -> Option<Failure> {
        let total = match o.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        } as u64
            * o.scale_pct
            / 100;
        let mut cases = total / o.nshards as u64;
        if (o.shard as u64) < total % o.nshards as u64 {
            cases += 1;
        }
        if cases == 0 {
            return None;
        }
        let config = Config {
            cases: cases as u32,
            failure_persistence: None,
            max_shrink_iters: if o.crash.is_some() { 300 } else { 20_000 },
            max_shrink_time: if o.crash.is_some() { 60_000 } else { 15_000 },
            max_global_rejects: 1_000_000,
            verbose: 0,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, shard_rng(o.seed, o.prop, self.name, o.shard));
        let strat = (self.strat)(o.tier);
        let st = RefCell::new(st);
        let failed = Cell::new(false);
        let count = Cell::new(0u64);
        let test = |c: C| {
            let idx = count.get();
            if let Some((skip, f)) = &o.crash {
                if idx < *skip {
                    return Ok(());
                }
                let v = serde_json::to_value(&c).unwrap();
                if f(&v) {
                    return Err(TestCaseError::fail("process died"));
                }
                return Ok(());
            }
            if let Some(j) = &o.journal {
                use std::os::unix::fs::FileExt;
                let line = serde_json::to_string(&(self.name, o.shard, idx, &c)).unwrap();
                let _ = j.write_all_at(format!("{:>10}{}", line.len(), line).as_bytes(), 0);
            }
            let mut obs = Obs::default();
            let r = eval(self.check, &c, &mut obs);
            if !failed.get() {
                st.borrow_mut().record(&obs, || serde_json::to_string(&c).unwrap());
            }
            match r {
                Ok(()) => Ok(()),
                Err(e) => {
                    failed.set(true);
                    Err(TestCaseError::fail(e))
                }
            }
        };
        let mut res = Ok(());
        for idx in 0..cases {
            if past_deadline(o.deadline) {
                break;
            }
            count.set(idx);
            let tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(r) => {
                    res = Err(TestError::Abort(r));
                    break;
                }
            };
            // evaluates the case and, when it fails, shrinks it
            if let Err(e) = runner.run_one(tree, &test) {
                res = Err(e);
                break;
            }
        }
        match res {
            Ok(()) => None,
            Err(TestError::Fail(reason, c)) => {
                // re-evaluate the minimal case for its own reason
                let reason = if o.crash.is_some() {
                    "process died (memory error or abort) while evaluating this case".to_string()
                } else {
                    match eval(self.check, &c, &mut Obs::default()) {
                        Err(e) => e,
                        Ok(()) => format!("{} (did not reproduce on re-evaluation)", reason),
                    }
                };
                Some(Failure {
                    sub: self.name.to_string(),
                    reason,
                    case: serde_json::to_value(&c).unwrap(),
                })
            }
            Err(TestError::Abort(r)) => {
                eprintln!("harness error: {}: generator aborted: {}", self.name, r);
                std::process::exit(3);
            }
        }
    }

    fn replay(&self, case: &serde_json::Value) -> CheckResult {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay file: {}", e))?;
        eval(self.check, &c, &mut Obs::default())
    }
}

/// An exhaustively enumerated sub-check
pub struct EnumSub<C> {
    name: &'static str,
    total: Box<dyn Fn(Tier) -> u64 + Send + Sync>,
    make: fn(u64) -> C,
    check: fn(&C, &mut Obs) -> CheckResult,
}

pub fn enumerate<C>(
    name: &'static str,
    total: impl Fn(Tier) -> u64 + Send + Sync + 'static,
    make: fn(u64) -> C,
    check: fn(&C, &mut Obs) -> CheckResult,
) -> Box<dyn AnySub>
where
    C: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
{
    Box::new(EnumSub {
        name,
        total: Box::new(total),
        make,
        check,
    })
}

impl<C> AnySub for EnumSub<C>
where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn run_shard(&self, o: &ShardOpts, st: &mut Stats) -> Option<Failure> {
        let total = (self.total)(o.tier);
        let mut i = o.shard as u64;
        let mut idx = 0u64;
        while i < total {
            if past_deadline(o.deadline) {
                break;
            }
            let c = (self.make)(i);
            if let Some((skip, f)) = &o.crash {
                if idx >= *skip {
                    let v = serde_json::to_value(&c).unwrap();
                    if f(&v) {
                        return Some(Failure {
                            sub: self.name.into(),
                            reason: "process died (memory error or abort) while evaluating this case".into(),
                            case: v,
                        });
                    }
                }
            } else {
                if let Some(j) = &o.journal {
                    use std::os::unix::fs::FileExt;
                    let line = serde_json::to_string(&(self.name, o.shard, idx, &c)).unwrap();
                    let _ = j.write_all_at(format!("{:>10}{}", line.len(), line).as_bytes(), 0);
                }
                let mut obs = Obs::default();
                let r = eval(self.check, &c, &mut obs);
                st.record(&obs, || serde_json::to_string(&c).unwrap());
                if let Err(e) = r {
                    return Some(Failure {
                        sub: self.name.into(),
                        reason: e,
                        case: serde_json::to_value(&c).unwrap(),
                    });
                }
            }
            idx += 1;
            i += o.nshards as u64;
        }
        None
    }
    fn replay(&self, case: &serde_json::Value) -> CheckResult {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay file: {}", e))?;
        eval(self.check, &c, &mut Obs::default())
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn AnySub>>,
}

#[derive(Serialize, Deserialize, Default)]
pub struct WorkerReport {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct_nontrivial: u64,
    pub per_sub: BTreeMap<String, SubReport>,
    pub failures: Vec<Failure>,
}

#[derive(Serialize, Deserialize, Default)]
pub struct SubReport {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct_nontrivial: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub wall_s: f64,
}

pub const NSHARDS: u32 = 16;

/// Properties whose cases are cheap evaluate more of them in the quick tier
fn quick_factor(prop: &str) -> u64 {
    match prop {
        "C01" | "C03" | "C07" | "C09" | "C10" | "C25" => 4,
        "C02" | "C05" | "C06" | "C21" => 6,
        "C08" | "C11" => 3,
        "C12" | "C13" | "C14" | "C20" => 8,
        "C16" => 20,
        "C17" | "C18" | "C19" | "C26" => 2,
        _ => 1,
    }
}

pub fn scale_pct(prop: &str, tier: Tier) -> u64 {
    let pct: u64 = std::env::var("CSVERIF_SCALE_PCT").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
    match tier {
        Tier::Quick => pct * quick_factor(prop),
        Tier::Thorough => pct,
    }
}

/// Run all sub-checks of a property in this process. Shards are fixed in
/// number so that the cases do not depend on the machine.
pub fn run_property(p: &Property, seed: u64, tier: Tier, journal_dir: Option<&str>, only: Option<&str>, deadline: Option<std::time::Instant>) -> WorkerReport {
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let mut report = WorkerReport::default();
    for s in &p.subs {
        if let Some(o) = only {
            if o != s.name() {
                continue;
            }
        }
        let t0 = std::time::Instant::now();
        let next = std::sync::atomic::AtomicU32::new(0);
        let results = std::sync::Mutex::new(Vec::<(u32, Stats, Option<Failure>)>::new());
        std::thread::scope(|scope| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, || loop {
                        let shard = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if shard >= NSHARDS {
                            break;
                        }
                        let journal = journal_dir.map(|d| {
                            std::fs::File::create(format!("{}/{}-{}.journal", d, s.name(), shard)).expect("journal")
                        });
                        let o = ShardOpts {
                            seed,
                            prop: p.id,
                            shard,
                            nshards: NSHARDS,
                            tier,
                            scale_pct: scale_pct(p.id, tier),
                            journal,
                            deadline,
                            crash: None,
                        };
                        let mut st = Stats::default();
                        let f = s.run_shard(&o, &mut st);
                        if let Some(d) = journal_dir {
                            let _ = std::fs::remove_file(format!("{}/{}-{}.journal", d, s.name(), shard));
                        }
                        results.lock().unwrap().push((shard, st, f));
                    })
                    .expect("spawn");
            }
        });
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| r.0);
        let mut sr = SubReport::default();
        let mut hashes = HashSet::new();
        let mut failures = Vec::new();
        for (_, st, f) in results {
            sr.evaluations += st.evaluations;
            sr.nontrivial += st.nontrivial;
            for (k, v) in st.classes {
                *sr.classes.entry(k).or_insert(0) += v;
            }
            if sr.samples.len() < 2 {
                sr.samples.extend(st.samples);
                sr.samples.truncate(2);
            }
            hashes.extend(st.hashes);
            failures.extend(f);
        }
        sr.distinct_nontrivial = hashes.len() as u64;
        sr.wall_s = t0.elapsed().as_secs_f64();
        report.evaluations += sr.evaluations;
        report.nontrivial += sr.nontrivial;
        report.distinct_nontrivial += sr.distinct_nontrivial;
        report.per_sub.insert(s.name().to_string(), sr);
        // keep the smallest failing case of the sub-check
        if let Some(f) = failures.into_iter().min_by_key(|f| f.case.to_string().len()) {
            report.failures.push(f);
            if std::env::var_os("CSVERIF_ALL").is_none() {
                break;
            }
        }
    }
    report
}

pub fn write_json<T: Serialize>(path: &str, v: &T) {
    let tmp = format!("{}.tmp", path);
    let mut f = std::fs::File::create(&tmp).expect("create json");
    f.write_all(serde_json::to_string_pretty(v).unwrap().as_bytes()).unwrap();
    f.write_all(b"\n").unwrap();
    std::fs::rename(&tmp, path).unwrap();
}
