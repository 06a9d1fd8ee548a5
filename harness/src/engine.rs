//! Small property-testing engine on top of proptest: sharding, counters, shrinking, replay files, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Copy)]
pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
}

/// What one case observed: labels for the distribution table and whether it was non-trivial.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub counts: Vec<(String, u64)>,
}

impl Obs {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn label_if(&mut self, c: bool, s: &str) {
        if c {
            self.labels.push(s.to_string());
        }
    }
    pub fn count(&mut self, s: &str, n: u64) {
        self.counts.push((s.to_string(), n));
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
}

pub type CheckResult = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)+) => { if !($c) { return Err(format!($($arg)+)); } };
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
}

pub struct Failure {
    pub sub: String,
    pub shard: usize,
    pub message: String,
    pub case: Value,
}

pub trait Sub: Sync + Send {
    fn name(&self) -> &str;
    fn rule(&self) -> &str;
    fn shards(&self, ctx: &Ctx) -> usize;
    fn run_shard(&self, prop: &str, ctx: &Ctx, shard: usize, stats: &Mutex<Stats>, abort: &AtomicBool)
        -> Option<Failure>;
    fn replay(&self, case: &Value) -> CheckResult;
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_quiet_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = loc);
    }));
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    let msg = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".to_string()
    };
    let loc = LAST_PANIC.with(|p| p.borrow().clone());
    format!("panic '{msg}' near {loc}")
}

/// Runs `f`, turning a panic into `Err(text)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

/// A case being checked on some thread, so that one that never ends can be reported.
struct InFlight {
    since: Instant,
    sub: String,
    case: Box<dyn FnOnce() -> Value + Send>,
}

static IN_FLIGHT: Mutex<BTreeMap<u64, InFlight>> = Mutex::new(BTreeMap::new());
static NEXT_CASE: AtomicUsize = AtomicUsize::new(0);
/// Longest finished case in milliseconds.
pub static SLOWEST: AtomicUsize = AtomicUsize::new(0);

fn guarded<C: Clone + Serialize + Send + 'static>(
    sub: &str,
    check: fn(&C, &mut Obs) -> CheckResult,
    case: &C,
    obs: &mut Obs,
) -> CheckResult {
    let id = NEXT_CASE.fetch_add(1, Ordering::Relaxed) as u64;
    let copy = case.clone();
    let start = Instant::now();
    let entry = InFlight {
        since: start,
        sub: sub.to_string(),
        case: Box::new(move || serde_json::to_value(&copy).unwrap_or_default()),
    };
    IN_FLIGHT.lock().unwrap().insert(id, entry);
    let result = catch(|| check(case, obs));
    let entry = IN_FLIGHT.lock().unwrap().remove(&id);
    drop(entry);
    SLOWEST.fetch_max(start.elapsed().as_millis() as usize, Ordering::Relaxed);
    let result = match result {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected {p}")),
    };
    // Genomes of 70000 genes do not help in a message.
    result.map_err(|m| match m.char_indices().nth(6_000) {
        Some((end, _)) => format!("{} [...]", &m[..end]),
        None => m,
    })
}

fn resident_bytes() -> u64 {
    let text = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    text.split(' ').nth(1).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0) * 4096
}

/// Waits until some case has run for `limit` (a normal one takes at most seconds), or has filled the memory, and
/// returns it as a failure.
pub fn wait_for_endless_case(limit: Duration) -> Failure {
    loop {
        std::thread::sleep(Duration::from_millis(100));
        let mut all = IN_FLIGHT.lock().unwrap();
        let Some((&id, oldest)) = all.iter().min_by_key(|(_, f)| f.since) else { continue };
        let age = oldest.since.elapsed();
        let memory = resident_bytes();
        let why = if age >= limit {
            format!("the case did not finish within {} s", limit.as_secs())
        } else if memory > 14 << 30 && age > Duration::from_secs(2) {
            format!("the case was still running after {} s, with {} GB of memory in use", age.as_secs(), memory >> 30)
        } else {
            continue;
        };
        let entry = all.remove(&id).unwrap();
        return Failure { sub: entry.sub, shard: 0, message: why, case: (entry.case)() };
    }
}

fn record<C: Serialize>(case: &C, obs: Obs, stats: &mut Stats) {
    stats.cases += 1;
    for l in obs.labels {
        *stats.labels.entry(l).or_default() += 1;
    }
    for (l, n) in obs.counts {
        *stats.labels.entry(l).or_default() += n;
    }
    if obs.nontrivial {
        let bytes = serde_json::to_vec(case).unwrap_or_default();
        // Bounds the memory of thorough runs; the count is then a lower bound.
        let fresh = stats.distinct.len() < 1_000_000 && stats.distinct.insert(fnv(&bytes));
        if fresh && stats.samples.len() < 3 && bytes.len() < 1500 {
            if let Ok(v) = serde_json::from_slice(&bytes) {
                stats.samples.push(v);
            }
        }
    }
}

fn flush(local: Stats, stats: &Mutex<Stats>) {
    let mut s = stats.lock().unwrap();
    s.cases += local.cases;
    s.distinct.extend(local.distinct);
    for (l, n) in local.labels {
        *s.labels.entry(l).or_default() += n;
    }
    for v in local.samples {
        if s.samples.len() < 3 {
            s.samples.push(v);
        }
    }
}

/// A generated sub-check.
pub struct Prop<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strat: fn(Tier) -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Obs) -> CheckResult,
}

const SHARDS: usize = 32;

impl<C: Debug + Clone + Serialize + DeserializeOwned + Send + 'static> Sub for Prop<C> {
    fn name(&self) -> &str {
        self.name
    }
    fn rule(&self) -> &str {
        self.rule
    }
    fn shards(&self, ctx: &Ctx) -> usize {
        let n = if ctx.tier == Tier::Quick { self.quick } else { self.thorough };
        (n as usize).clamp(1, SHARDS)
    }
    fn run_shard(
        &self,
        prop: &str,
        ctx: &Ctx,
        shard: usize,
        stats: &Mutex<Stats>,
        abort: &AtomicBool,
    ) -> Option<Failure> {
        let total = if ctx.tier == Tier::Quick { self.quick } else { self.thorough };
        let shards = self.shards(ctx) as u64;
        let cases = total / shards + u64::from((shard as u64) < total % shards);
        let mut seed = [0u8; 32];
        let base = fnv(format!("{prop}/{}/{}/{shard}", self.name, ctx.seed).as_bytes());
        for i in 0..4 {
            seed[i * 8..][..8].copy_from_slice(&mix(base.wrapping_add(i as u64)).to_le_bytes());
        }
        let config = Config {
            cases: cases as u32,
            failure_persistence: None,
            max_shrink_iters: 20_000,
            max_shrink_time: 20_000,
            verbose: 0,
            max_local_rejects: 1_000_000,
            max_global_rejects: 1_000_000,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let strat = (self.strat)(ctx.tier);
        let local = RefCell::new(Stats::default());
        let failed = RefCell::new(false);
        let result = runner.run(&strat, |case| {
            if abort.load(Ordering::Relaxed) && !*failed.borrow() {
                return Ok(());
            }
            let mut obs = Obs::default();
            match guarded(self.name, self.check, &case, &mut obs) {
                Ok(()) => {
                    if !*failed.borrow() {
                        record(&case, obs, &mut local.borrow_mut());
                    }
                    Ok(())
                }
                Err(m) => {
                    *failed.borrow_mut() = true;
                    abort.store(true, Ordering::Relaxed);
                    Err(TestCaseError::fail(m))
                }
            }
        });
        flush(local.into_inner(), stats);
        match result {
            Ok(()) => None,
            Err(TestError::Fail(reason, case)) => {
                // Schedule-dependent failures may need several attempts to reproduce; keep the first message.
                let mut obs = Obs::default();
                let message = match guarded(self.name, self.check, &case, &mut obs) {
                    Err(m) => m,
                    Ok(()) => format!("{} (not reproduced on an immediate re-run)", reason.message()),
                };
                Some(Failure {
                    sub: self.name.to_string(),
                    shard,
                    message,
                    case: serde_json::to_value(&case).unwrap(),
                })
            }
            Err(TestError::Abort(r)) => panic!("generator aborted in {prop}/{}: {}", self.name, r.message()),
        }
    }
    fn replay(&self, case: &Value) -> CheckResult {
        let case: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay file: {e}"))?;
        guarded(self.name, self.check, &case, &mut Obs::default())
    }
}

/// An exhaustively enumerated sub-check (smallest cases first).
pub struct Exhaust<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub cases: fn(Tier) -> Box<dyn Iterator<Item = C>>,
    pub check: fn(&C, &mut Obs) -> CheckResult,
}

impl<C: Debug + Clone + Serialize + DeserializeOwned + Send + 'static> Sub for Exhaust<C> {
    fn name(&self) -> &str {
        self.name
    }
    fn rule(&self) -> &str {
        self.rule
    }
    fn shards(&self, _: &Ctx) -> usize {
        16
    }
    fn run_shard(
        &self,
        _prop: &str,
        ctx: &Ctx,
        shard: usize,
        stats: &Mutex<Stats>,
        abort: &AtomicBool,
    ) -> Option<Failure> {
        let mut local = Stats::default();
        let mut failure = None;
        for (_, case) in (self.cases)(ctx.tier).enumerate().filter(|(i, _)| i % 16 == shard) {
            if abort.load(Ordering::Relaxed) {
                break;
            }
            let mut obs = Obs::default();
            match guarded(self.name, self.check, &case, &mut obs) {
                Ok(()) => record(&case, obs, &mut local),
                Err(message) => {
                    abort.store(true, Ordering::Relaxed);
                    failure = Some(Failure {
                        sub: self.name.to_string(),
                        shard,
                        message,
                        case: serde_json::to_value(&case).unwrap(),
                    });
                    break;
                }
            }
        }
        flush(local, stats);
        failure
    }
    fn replay(&self, case: &Value) -> CheckResult {
        let case: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay file: {e}"))?;
        guarded(self.name, self.check, &case, &mut Obs::default())
    }
}

pub struct Outcome {
    pub failure: Option<Failure>,
    pub per_sub: Vec<(String, String, Stats)>,
}

pub fn run_all(prop: &str, subs: &[Box<dyn Sub>], ctx: &Ctx) -> Outcome {
    let stats: Vec<Mutex<Stats>> = subs.iter().map(|_| Mutex::new(Stats::default())).collect();
    let mut jobs = Vec::new();
    for (i, s) in subs.iter().enumerate() {
        for shard in 0..s.shards(ctx) {
            jobs.push((i, shard));
        }
    }
    // Interleave sub-checks so that long ones start early.
    jobs.sort_by_key(|&(i, shard)| (shard, i));
    let next = AtomicUsize::new(0);
    let abort = AtomicBool::new(false);
    let failures: Mutex<Vec<Failure>> = Mutex::new(Vec::new());
    let fatal: Mutex<Option<String>> = Mutex::new(None);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16);
    std::thread::scope(|scope| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(scope, || loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    let Some(&(i, shard)) = jobs.get(k) else { break };
                    if abort.load(Ordering::Relaxed) {
                        break;
                    }
                    match catch(|| subs[i].run_shard(prop, ctx, shard, &stats[i], &abort)) {
                        Ok(Some(f)) => failures.lock().unwrap().push(f),
                        Ok(None) => {}
                        Err(p) => {
                            *fatal.lock().unwrap() = Some(p);
                            abort.store(true, Ordering::Relaxed);
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut failures = failures.into_inner().unwrap();
    if let (true, Some(p)) = (failures.is_empty(), fatal.into_inner().unwrap()) {
        eprintln!("harness error in {prop}: {p}");
        std::process::exit(3);
    }
    failures.sort_by_key(|f| serde_json::to_string(&f.case).unwrap().len());
    Outcome {
        failure: failures.into_iter().next(),
        per_sub: subs
            .iter()
            .zip(stats)
            .map(|(s, st)| (s.name().to_string(), s.rule().to_string(), st.into_inner().unwrap()))
            .collect(),
    }
}

pub fn evidence(prop: &str, ctx: &Ctx, out: &Outcome, wall: f64, assumptions: &[&str]) -> Value {
    let evaluations: u64 = out.per_sub.iter().map(|s| s.2.cases).sum();
    let distinct: u64 = out.per_sub.iter().map(|s| s.2.distinct.len() as u64).sum();
    let rule = out
        .per_sub
        .iter()
        .map(|(n, r, _)| format!("{n}: {r}"))
        .collect::<Vec<_>>()
        .join(" | ");
    let samples: Vec<Value> = out
        .per_sub
        .iter()
        .flat_map(|(n, _, s)| s.samples.iter().map(move |v| json!({"check": n, "case": v})))
        .collect();
    let table: BTreeMap<_, _> = out
        .per_sub
        .iter()
        .map(|(n, _, s)| {
            (n.clone(), json!({"cases": s.cases, "distinct_nontrivial": s.distinct.len(), "observed": s.labels}))
        })
        .collect();
    json!({
        "property": prop,
        "tier": if ctx.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": rule,
            "samples": samples,
            "per_check": table,
        },
        "assumptions": assumptions,
        "wall_s": wall,
        "violations": if out.failure.is_some() { 1 } else { 0 },
    })
}

/// One value of a strategy (used by tests of the harness itself).
#[allow(dead_code)]
pub fn sample<T: Debug>(s: &BoxedStrategy<T>, seed: u64) -> T {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &b));
    s.new_tree(&mut r).unwrap().current()
}
