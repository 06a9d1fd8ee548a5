//! Whole evolutions with an instrumented model: C01-C05, C07 (runs), C08, C20, C22, C23, C28.
use crate::engine::*;
use crate::ensure;
use crate::gen::{aged, wide_f64};
use crate::sel::{any_strategy, ratio01, S};
use crate::stat;
use proptest::collection::vec;
use proptest::prelude::*;
use rand::{Error, Rng as _, RngCore, SeedableRng};
use rusty_genes::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::ops::Range;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

pub fn subs(prop: &str) -> Option<(Vec<Box<dyn Sub>>, &'static [&'static str])> {
    let v: Vec<Box<dyn Sub>> = match prop {
        "C01" => c01(),
        "C02" => c02(),
        "C03" => c03(),
        "C04" => c04(),
        "C05" => c05(),
        "C08" => c08(),
        "C20" => c20(),
        "C22" => c22(),
        "C23" => c23(),
        "C28" => c28(),
        "C30" => c30(),
        _ => return None,
    };
    Some((
        v,
        &[
            "the model's evaluation is a function of the genome, and individuals with equal genomes compare equal",
            "where size x rate is within rounding of an integer, both neighbouring elite counts are accepted",
        ],
    ))
}

// ---------------------------------------------------------------- instrumented model

/// Generator with an identity, handed out by the context of the current thread pool.
pub struct ERng {
    inner: rand::rngs::SmallRng,
    pub id: u64,
}
impl RngCore for ERng {
    fn next_u32(&mut self) -> u32 {
        self.inner.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.inner.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.inner.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.inner.try_fill_bytes(d)
    }
}

pub struct PoolCtx {
    base: AtomicU64,
    next: AtomicU64,
}

thread_local! {
    static CTX: RefCell<Option<Arc<PoolCtx>>> = const { RefCell::new(None) };
    static POOLS: RefCell<HashMap<usize, Rc<(rayon::ThreadPool, Arc<PoolCtx>)>>> = RefCell::new(HashMap::new());
}

pub fn new_rng() -> ERng {
    static STRAY: AtomicU64 = AtomicU64::new(0);
    CTX.with(|c| {
        let (seed, id) = match &*c.borrow() {
            Some(c) => {
                let k = c.next.fetch_add(1, Ordering::Relaxed);
                (mix(c.base.load(Ordering::Relaxed) ^ mix(k)), k)
            }
            None => {
                let k = STRAY.fetch_add(1, Ordering::Relaxed);
                (mix(k), (1 << 40) + k)
            }
        };
        ERng { inner: rand::rngs::SmallRng::seed_from_u64(seed), id }
    })
}

struct AssertSend<T>(T);
// Only ever moved to a pool thread while the owner is blocked in `install`.
unsafe impl<T> Send for AssertSend<T> {}
impl<T> AssertSend<T> {
    fn get(self) -> T {
        self.0
    }
}

/// Runs `f` inside a (cached) pool of exactly `threads` workers, with generators derived from `seed`.
pub fn in_pool<T>(threads: usize, seed: u64, f: impl FnOnce() -> T) -> T {
    let pool = POOLS.with(|p| {
        p.borrow_mut()
            .entry(threads)
            .or_insert_with(|| {
                let ctx = Arc::new(PoolCtx { base: AtomicU64::new(0), next: AtomicU64::new(0) });
                let c = ctx.clone();
                let pool = rayon::ThreadPoolBuilder::new()
                    .num_threads(threads)
                    .start_handler(move |_| CTX.with(|x| *x.borrow_mut() = Some(c.clone())))
                    .build()
                    .unwrap();
                Rc::new((pool, ctx))
            })
            .clone()
    });
    pool.1.base.store(seed, Ordering::Relaxed);
    pool.1.next.store(0, Ordering::Relaxed);
    let f = AssertSend(f);
    pool.0.install(move || AssertSend(f.get()())).get()
}

/// Like `in_pool`; a call from a worker of such a pool stays in that pool. With a single worker it gets
/// generators of its own from `seed`, which takes nothing from those of the surrounding run.
fn nested_or_in_pool<T>(threads: usize, seed: u64, f: impl FnOnce() -> T) -> T {
    let Some(outer) = CTX.with(|c| c.borrow().clone()) else {
        return in_pool(threads, seed, f);
    };
    if rayon::current_num_threads() > 1 {
        return f();
    }
    struct Restore(Arc<PoolCtx>);
    impl Drop for Restore {
        fn drop(&mut self) {
            CTX.with(|c| *c.borrow_mut() = Some(self.0.clone()));
        }
    }
    let own = Arc::new(PoolCtx { base: AtomicU64::new(seed), next: AtomicU64::new(0) });
    CTX.with(|c| *c.borrow_mut() = Some(own));
    let _restore = Restore(outer);
    f()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fitness {
    Sum,
    NegSum,
    Hash,
    Levels(u32),
    Const(f64),
    Scaled(f64, f64),
    Rising,
    /// 1 plus a few units in the last place.
    Ulps(u32),
    /// Equally spaced from 0 to the largest finite number, or their negatives.
    Extreme(u32, bool),
    /// One genome in so many has -1, one has 0, all others have a negative zero.
    Zeros(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ModelCfg {
    pub len: usize,
    pub alphabet: u8,
    pub fit: Fitness,
    /// 0: none; otherwise genomes whose hash is divisible by it are invalid.
    pub invalid_mod: u32,
    /// NaN, +inf, -inf, finite but flagged.
    pub invalid_kind: u8,
    pub improve: bool,
    /// Offspring get a fresh tag, so that no two are equal.
    pub unique: bool,
    pub hooks: Vec<Hook>,
    /// Survival rule of the overriding model: 0 always, 1 never, k: hash % k != 0.
    pub survive: u32,
    pub delay: u8,
    /// Panic in the n-th evaluation (0: never).
    pub panic_at: u64,
    pub verbose_log: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hook {
    pub generation: usize,
    pub cx: Option<f64>,
    pub mx: Option<f64>,
    pub swap: Option<S>,
}

pub fn ghash(g: &[u8]) -> u64 {
    mix(fnv(g))
}

impl ModelCfg {
    /// Fitness and validity that evaluation assigns to a genome.
    pub fn eval(&self, g: &[u8], tag: u64) -> (f64, bool) {
        let h = ghash(g);
        let sum: f64 = g.iter().map(|&x| x as f64).sum();
        let unit = (h >> 11) as f64 / (1u64 << 53) as f64;
        let fit = match self.fit {
            Fitness::Sum => sum,
            Fitness::NegSum => -sum - 1.0,
            Fitness::Hash => unit,
            Fitness::Levels(k) => (h % k as u64) as f64,
            Fitness::Const(c) => c,
            Fitness::Scaled(scale, offset) => offset + scale * unit,
            Fitness::Ulps(k) => 1.0 + (h % k as u64) as f64 * f64::EPSILON,
            Fitness::Rising => 1.0 + tag as f64,
            Fitness::Extreme(k, negative) => (h % k as u64) as f64 / (k - 1) as f64 * if negative { f64::MIN } else { f64::MAX },
            Fitness::Zeros(k) => match h % k as u64 { 0 => -1.0, 1 => 0.0, _ => -0.0 },
        };
        if self.invalid_mod != 0 && (h >> 7) % self.invalid_mod as u64 == 0 {
            return match self.invalid_kind % 4 {
                0 => (f64::NAN, true),
                1 => (f64::INFINITY, true),
                2 => (f64::NEG_INFINITY, true),
                _ => (fit + 1000.0, false),
            };
        }
        (fit, true)
    }
    pub fn valid(&self, g: &[u8], tag: u64) -> bool {
        let (f, ok) = self.eval(g, tag);
        ok && f.is_finite()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TInd {
    pub genome: Vec<u8>,
    pub tag: u64,
    pub fit: f64,
    pub flag: bool,
    /// What was done to this individual since it was last evaluated.
    pub steps: Vec<u8>,
}
impl PartialEq for TInd {
    fn eq(&self, o: &Self) -> bool {
        self.tag == o.tag && self.genome == o.genome
    }
}
impl TInd {
    pub fn new(genome: Vec<u8>) -> Self {
        TInd { genome, tag: 0, fit: -7.5, flag: true, steps: vec![] }
    }
    pub fn key(&self) -> (Vec<u8>, u64) {
        (self.genome.clone(), self.tag)
    }
}

/// Uses the library's default notion of validity.
#[derive(Clone, PartialEq)]
struct Plain(f64);
impl Individual for Plain {
    fn fitness(&self) -> f64 {
        self.0
    }
}
impl Individual for TInd {
    fn fitness(&self) -> f64 {
        self.fit
    }
    fn is_valid(&self) -> bool {
        self.flag && Plain(self.fit).is_valid()
    }
}

pub struct GenArgs {
    pub shared: Arc<Shared>,
}
impl RandomIndividual<GenArgs> for TInd {
    fn new_random<R: rand::Rng>(args: &GenArgs, rng: &mut R) -> Self {
        let c = &args.shared.cfg;
        let genome: Vec<u8> = (0..c.len).map(|_| rng.gen_range(0..c.alphabet)).collect();
        args.shared.at(6);
        args.shared.log(Ev::New(genome.clone()));
        TInd::new(genome)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct EvalEv {
    pub genome: Vec<u8>,
    pub tag: u64,
    pub steps: Vec<u8>,
    pub fit: u64,
    pub valid: bool,
    /// Fitness of the fitter parent (for offspring).
    pub parent: u64,
}

/// Identifies a population: generation, size, fittest genome.
pub type Fp = (usize, usize, u64);

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    New(Vec<u8>),
    Eval(EvalEv),
    Hook { fp: Fp, cx: u64, mx: u64 },
    Prepare { sel: usize, fp: Fp },
    Select { sel: usize, fp: Fp },
    Survive { fp: Fp, child: Vec<u8>, child_fit: u64, parent: TInd, ok: bool },
    AlgPrepare { fp: Fp },
    Problem(String),
}

pub struct Shared {
    pub cfg: ModelCfg,
    pub events: Mutex<Vec<Ev>>,
    evals: AtomicU64,
    tags: AtomicU64,
    busy: Mutex<HashSet<u64>>,
    /// Called inside the model's operations, with the place (see `PLACES`).
    probe: OnceLock<Box<dyn Fn(usize) + Send + Sync>>,
}

/// Where the probe of a model is called.
pub const PLACES: [&str; 9] = ["crossover", "mutation", "local search", "evaluation", "survival rule", "pre-generation hook", "random individual", "progress", "selection"];

impl Shared {
    pub fn at(&self, place: usize) {
        if let Some(p) = self.probe.get() {
            p(place)
        }
    }
    pub fn set_probe(&self, f: impl Fn(usize) + Send + Sync + 'static) {
        assert!(self.probe.set(Box::new(f)).is_ok());
    }
    pub fn new(cfg: ModelCfg) -> Arc<Self> {
        Arc::new(Shared {
            cfg,
            events: Mutex::new(vec![]),
            evals: AtomicU64::new(0),
            tags: AtomicU64::new(1),
            busy: Mutex::new(HashSet::new()),
            probe: OnceLock::new(),
        })
    }
    fn log(&self, e: Ev) {
        self.events.lock().unwrap_or_else(|e| e.into_inner()).push(e)
    }
    fn drain(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.events.lock().unwrap_or_else(|e| e.into_inner()))
    }
    fn pause(&self, h: u64) {
        match self.cfg.delay {
            0 => {}
            1 => {
                if h % 3 == 0 {
                    std::thread::yield_now()
                }
            }
            2 => {
                for _ in 0..h % 2000 {
                    std::hint::spin_loop()
                }
            }
            _ => {
                if h % 7 == 0 {
                    std::thread::sleep(std::time::Duration::from_micros(h % 50))
                }
            }
        }
    }
    /// Marks the generator as being in use by one breeding step.
    fn with_rng<T>(&self, rng: &mut ERng, h: u64, f: impl FnOnce(&mut ERng) -> T) -> T {
        if self.cfg.delay == 0 {
            return f(rng);
        }
        let id = rng.id;
        if !self.busy.lock().unwrap_or_else(|e| e.into_inner()).insert(id) {
            self.log(Ev::Problem(format!("generator {id} is used by two breedings at once")));
        }
        self.pause(h);
        let r = f(rng);
        self.busy.lock().unwrap_or_else(|e| e.into_inner()).remove(&id);
        r
    }
}

pub fn fp(p: &Population<TInd>) -> Fp {
    (p.generation(), p.len(), ghash(&p.last().unwrap().genome))
}

pub trait Tm: EvolutionModel<Individual = TInd, Rng = ERng> + Sized + 'static {
    fn make(s: Arc<Shared>) -> Self;
}

macro_rules! model {
    ($name:ident, { $($extra:tt)* }) => {
        pub struct $name(pub Arc<Shared>);
        impl Tm for $name {
            fn make(s: Arc<Shared>) -> Self {
                $name(s)
            }
        }
        impl EvolutionModel for $name {
            type Individual = TInd;
            type Rng = ERng;
            fn rng() -> ERng {
                new_rng()
            }
            fn crossover(&self, a: &TInd, b: &TInd, rng: &mut ERng) -> TInd {
                let h = ghash(&a.genome) ^ ghash(&b.genome);
                self.0.with_rng(rng, h, |rng| {
                    self.0.at(0);
                    if a == b {
                        self.0.log(Ev::Problem(format!("crossover of equal parents {a:?}")));
                    }
                    let genome = a.genome.iter().zip(&b.genome).map(|(x, y)| if rng.gen() { *x } else { *y }).collect();
                    let fit = if b.fit > a.fit { b.fit } else { a.fit };
                    TInd { genome, tag: a.tag, fit, flag: a.flag && b.flag, steps: vec![b'c'] }
                })
            }
            fn mutate(&self, i: &mut TInd, rng: &mut ERng) {
                let h = ghash(&i.genome);
                self.0.with_rng(rng, h, |rng| {
                    self.0.at(1);
                    let k = rng.gen_range(0..i.genome.len());
                    i.genome[k] = rng.gen_range(0..self.0.cfg.alphabet);
                    i.steps.push(b'm');
                })
            }
            fn improve(&self, i: &mut TInd) {
                self.0.at(2);
                if self.0.cfg.improve {
                    i.genome[0] = self.0.cfg.alphabet - 1;
                }
                if self.0.cfg.unique {
                    i.tag = self.0.tags.fetch_add(1, Ordering::Relaxed);
                }
                i.steps.push(b'i');
            }
            fn evaluate(&self, i: &mut TInd) {
                let s = &self.0;
                s.at(3);
                let n = s.evals.fetch_add(1, Ordering::Relaxed) + 1;
                s.pause(ghash(&i.genome) ^ n);
                if s.cfg.panic_at == n {
                    panic!("planned panic in evaluation");
                }
                let parent = i.fit;
                let (fit, flag) = s.cfg.eval(&i.genome, i.tag);
                i.fit = fit;
                i.flag = flag;
                s.log(Ev::Eval(EvalEv {
                    genome: i.genome.clone(),
                    tag: i.tag,
                    steps: std::mem::take(&mut i.steps),
                    fit: fit.to_bits(),
                    valid: flag && fit.is_finite(),
                    parent: parent.to_bits(),
                }));
            }
            fn pre_generation(&mut self, p: &Population<TInd>, r: &mut ReproductionParameters<Self>) {
                let s = &self.0;
                s.at(5);
                s.log(Ev::Hook { fp: fp(p), cx: r.crossover_rate.to_bits(), mx: r.mutation_rate.to_bits() });
                for h in s.cfg.hooks.iter().filter(|h| h.generation == p.generation()) {
                    if let Some(x) = h.cx {
                        r.crossover_rate = x;
                    }
                    if let Some(x) = h.mx {
                        r.mutation_rate = x;
                    }
                    if let Some(x) = h.swap {
                        r.parent_selector = Box::new(LogSel {
                            inner: x.strategy().create_selector(),
                            shared: s.clone(),
                            id: h.generation,
                        });
                    }
                }
            }
            $($extra)*
        }
    };
}

model!(TM, {});
model!(TMO, {
    fn can_survive(&self, child: &TInd, parent: &TInd, p: &Population<TInd>, _: &mut ERng) -> bool {
        self.0.at(4);
        let k = self.0.cfg.survive as u64;
        let ok = match k {
            0 => true,
            1 => false,
            _ => ghash(&child.genome) % k != 0,
        };
        self.0.log(Ev::Survive { fp: fp(p), child: child.genome.clone(), child_fit: child.fit.to_bits(), parent: parent.clone(), ok });
        ok
    }
});

struct LogSel {
    inner: Box<dyn SelectionMechanism<TInd, ERng>>,
    shared: Arc<Shared>,
    id: usize,
}
// The inner selector is one of the library's plain data mechanisms.
unsafe impl Send for LogSel {}
impl SelectionMechanism<TInd, ERng> for LogSel {
    fn prepare(&mut self, p: &Population<TInd>) {
        self.shared.log(Ev::Prepare { sel: self.id, fp: fp(p) });
        self.inner.prepare(p);
    }
    fn select<'a>(&self, p: &'a Population<TInd>, rng: &mut ERng) -> (usize, &'a TInd) {
        self.shared.at(8);
        self.shared.log(Ev::Select { sel: self.id, fp: fp(p) });
        self.inner.select(p, rng)
    }
}

// ---------------------------------------------------------------- algorithms

/// User-defined algorithm that implements only the required operations.
pub struct Custom<M: EvolutionModel> {
    model: M,
    repro: ReproductionParameters<M>,
    sizes: Vec<usize>,
    generation: usize,
    log: Option<Arc<Shared>>,
}
#[derive(Clone, Debug)]
pub struct CustomParams {
    initial: usize,
    sizes: Vec<usize>,
    cx: f64,
    mx: f64,
    strategy: SelectionStrategy,
    log: Option<AssertLog>,
}
#[derive(Clone)]
pub struct AssertLog(Arc<Shared>);
impl std::fmt::Debug for AssertLog {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl EvolutionParameters for CustomParams {
    fn initial_population_size(&self) -> usize {
        self.initial
    }
    fn max_population_size(&self) -> usize {
        self.sizes.iter().copied().max().unwrap_or(1).max(self.initial)
    }
    fn validate(&self) {}
}
impl<M: EvolutionModel> From<M> for Custom<M> {
    fn from(model: M) -> Self {
        Custom { model, repro: ReproductionParameters::default(), sizes: vec![1], generation: 0, log: None }
    }
}
impl<M: Tm> EvolutionAlgorithm<M> for Custom<M> {
    type Parameters = CustomParams;
    fn model(&self) -> &M {
        &self.model
    }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<M>, usize) {
        (&self.repro, self.sizes[self.generation % self.sizes.len()])
    }
    fn configure(&mut self, p: &CustomParams) {
        self.sizes = p.sizes.clone();
        self.repro.crossover_rate = p.cx;
        self.repro.mutation_rate = p.mx;
        self.repro.parent_selector = p.strategy.create_selector();
        self.log = p.log.as_ref().map(|l| l.0.clone());
    }
    fn prepare_for_next_population(&mut self, p: &Population<TInd>) {
        self.generation = p.generation();
        if let Some(l) = &self.log {
            l.log(Ev::AlgPrepare { fp: fp(p) });
        }
        self.repro.parent_selector.prepare(p);
    }
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Alg {
    Ga { elitism: f64, cx: f64, mx: f64 },
    Aga { elitism: f64, cx: (f64, f64), mx: (f64, f64), interval: usize },
    Custom { cx: f64, mx: f64, sizes: Vec<usize> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Start {
    Random,
    Individual(Vec<u8>),
    Population(Vec<Vec<u8>>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EvoCase {
    pub alg: Alg,
    pub size: usize,
    pub strategy: S,
    pub cfg: ModelCfg,
    pub start: Start,
    pub gens: usize,
    pub threads: usize,
    pub seed: u64,
    /// Use the model that overrides the survival rule.
    pub overriding: bool,
}

impl EvoCase {
    pub fn target(&self, generation: usize) -> usize {
        match &self.alg {
            Alg::Custom { sizes, .. } => sizes[generation % sizes.len()],
            _ => self.size,
        }
    }
    /// Admissible numbers of elites for a population of `len` (before truncation to the target).
    pub fn elites(&self, len: usize) -> Vec<usize> {
        let rate = match self.alg {
            Alg::Ga { elitism, .. } | Alg::Aga { elitism, .. } => elitism,
            Alg::Custom { .. } => return vec![1],
        };
        let x = self.size as f64 * rate;
        let mut v = vec![(x.floor() as usize).min(len)];
        if (x - x.round()).abs() < 1e-9 * self.size as f64 {
            v.push((x.round() as usize).min(len));
            if x.round() >= 1.0 {
                v.push((x.round() as usize - 1).min(len));
            }
        }
        v.dedup();
        v
    }
}

/// One progress call, with the events since the previous one.
#[derive(Clone, Debug)]
pub struct Snap {
    pub generation: usize,
    pub stagnation: usize,
    pub inds: Vec<TInd>,
    pub fittest: TInd,
    pub stats: PopulatedStats,
    pub events: Vec<Ev>,
}

#[derive(Debug)]
pub enum Outcome {
    Best(TInd),
    Pop { inds: Vec<TInd>, generation: usize, stagnation: usize },
    Panicked(String),
}

pub struct Trace {
    pub snaps: Vec<Snap>,
    pub outcome: Outcome,
    pub tail: Vec<Ev>,
}

pub enum Inst<M: Tm> {
    Ga(Evolution<GeneticAlgorithm<M>, M>),
    Aga(Evolution<AdaptiveGeneticAlgorithm<M>, M>),
    Custom(Evolution<Custom<M>, M>),
}

impl<M: Tm> Inst<M> {
    pub fn new(c: &EvoCase, shared: &Arc<Shared>) -> Self {
        let m = M::make(shared.clone());
        match c.alg {
            Alg::Ga { .. } => Inst::Ga(GeneticAlgorithm::build_evolution(m)),
            Alg::Aga { .. } => Inst::Aga(AdaptiveGeneticAlgorithm::build_evolution(m)),
            Alg::Custom { .. } => Inst::Custom(Custom::build_evolution(m)),
        }
    }
    /// Runs a case on this instance; parameters of the instance's own algorithm are used.
    pub fn run(&self, c: &EvoCase, shared: &Arc<Shared>) -> Trace {
        match (self, &c.alg) {
            (Inst::Ga(e), Alg::Ga { elitism, cx, mx }) => {
                let p = GeneticAlgorithmParameters {
                    population_size: c.size,
                    elitism_rate: *elitism,
                    crossover_rate: *cx,
                    mutation_rate: *mx,
                    selection_strategy: c.strategy.strategy(),
                };
                drive(e, &p, c, shared)
            }
            (Inst::Aga(e), Alg::Aga { elitism, cx, mx, interval }) => {
                let p = AdaptiveGeneticAlgorithmParameters {
                    population_size: c.size,
                    elitism_rate: *elitism,
                    crossover_rate_range: cx.0..cx.1,
                    mutation_rate_range: mx.0..mx.1,
                    selection_strategy: c.strategy.strategy(),
                    parameter_adjustment_interval: *interval,
                };
                drive(e, &p, c, shared)
            }
            (Inst::Custom(e), Alg::Custom { cx, mx, sizes }) => {
                let p = CustomParams {
                    initial: c.size,
                    sizes: sizes.clone(),
                    cx: *cx,
                    mx: *mx,
                    strategy: c.strategy.strategy(),
                    log: Some(AssertLog(shared.clone())),
                };
                drive(e, &p, c, shared)
            }
            _ => unreachable!("instance of another algorithm"),
        }
    }
}

fn drive<A, M>(e: &Evolution<A, M>, p: &A::Parameters, c: &EvoCase, shared: &Arc<Shared>) -> Trace
where
    M: Tm,
    A: EvolutionAlgorithm<M>,
{
    let args = GenArgs { shared: shared.clone() };
    nested_or_in_pool(c.threads, c.seed, || {
        let mut snaps: Vec<Snap> = Vec::new();
        let mut runaway = false;
        let outcome = {
            let progress = |p: &Population<TInd>| {
                shared.at(7);
                snaps.push(Snap {
                    generation: p.generation(),
                    stagnation: p.stagnation(),
                    inds: p.to_vec(),
                    fittest: p.fittest().clone(),
                    stats: *p.stats(),
                    events: shared.drain(),
                });
                if snaps.len() > c.gens + 2 {
                    runaway = true;
                    panic!("progress was called again after it had returned false");
                }
                snaps.len() <= c.gens
            };
            let r = catch(|| match &c.start {
                Start::Random => Outcome::Best(e.run(&args, p, progress)),
                Start::Individual(g) => Outcome::Best(e.evolve_individual(TInd::new(g.clone()), p, progress)),
                Start::Population(gs) => {
                    let inds = gs.iter().map(|g| TInd::new(g.clone())).collect();
                    let pop = e.evolve_population(inds, p, progress);
                    let (generation, stagnation) = (pop.generation(), pop.stagnation());
                    Outcome::Pop { inds: pop.into(), generation, stagnation }
                }
            });
            match r {
                Ok(o) => o,
                Err(m) => Outcome::Panicked(m),
            }
        };
        let _ = runaway;
        Trace { snaps, outcome, tail: shared.drain() }
    })
}

pub fn run_case(c: &EvoCase) -> Trace {
    let shared = Shared::new(c.cfg.clone());
    if c.overriding {
        Inst::<TMO>::new(c, &shared).run(c, &shared)
    } else {
        Inst::<TM>::new(c, &shared).run(c, &shared)
    }
}

/// Like `run_case`, but a panic is a violation unless no initial individual is valid.
fn run_ok(c: &EvoCase, obs: &mut Obs) -> Result<Option<Trace>, String> {
    let t = run_case(c);
    if let Outcome::Panicked(m) = &t.outcome {
        let created = initial_evals(&t);
        if t.snaps.is_empty() && !created.is_empty() && created.iter().all(|e| !e.valid) {
            obs.label("no valid initial individual");
            return Ok(None);
        }
        return Err(format!("the run ended with {m} after {} progress calls", t.snaps.len()));
    }
    if let Some(Ev::Problem(m)) = t.snaps.iter().flat_map(|s| &s.events).chain(&t.tail).find(|e| matches!(e, Ev::Problem(_))) {
        return Err(m.clone());
    }
    obs.label(match c.alg {
        Alg::Ga { .. } => "GA",
        Alg::Aga { .. } => "AGA",
        Alg::Custom { .. } => "custom algorithm",
    });
    obs.count("generations", c.gens as u64);
    obs.label_if(t.snaps.iter().any(|s| s.inds.len() > 65_536), "more than 65536 individuals");
    obs.label_if(c.gens > 65_536, "more than 65536 generations");
    Ok(Some(t))
}

/// Evaluations before the first progress call.
fn initial_evals(t: &Trace) -> Vec<EvalEv> {
    evals(t.snaps.first().map_or(&t.tail, |s| &s.events))
}
pub fn evals(events: &[Ev]) -> Vec<EvalEv> {
    events
        .iter()
        .filter_map(|e| match e {
            Ev::Eval(x) => Some(x.clone()),
            _ => None,
        })
        .collect()
}

// ---------------------------------------------------------------- generators

pub fn rate() -> BoxedStrategy<f64> {
    prop_oneof![4 => Just(0.0), 4 => Just(1.0), 10 => 0.0f64..=1.0, 1 => crate::gen::wide_f64(-12, -1).prop_map(|x| x.min(1.0))].boxed()
}

fn evo_strategy() -> BoxedStrategy<S> {
    any_strategy()
        .prop_map(|s| match s {
            S::T(k) => S::T(k.min(20)),
            s => s,
        })
        .boxed()
}

pub fn cfg() -> BoxedStrategy<ModelCfg> {
    let fit = prop_oneof![
        4 => Just(Fitness::Sum),
        1 => Just(Fitness::NegSum),
        3 => Just(Fitness::Hash),
        3 => (1u32..6).prop_map(Fitness::Levels),
        1 => prop_oneof![Just(0.0), Just(2.5), Just(-1.0)].prop_map(Fitness::Const),
        2 => (wide_f64(-3, 6), prop_oneof![Just(0.0), -1e6f64..1e6, Just(-1e9)]).prop_map(|(s, o)| Fitness::Scaled(s, o)),
        1 => (wide_f64(200, 299)).prop_map(|s| Fitness::Scaled(s, -s / 2.0)),
        1 => (wide_f64(-140, -17)).prop_map(|s| Fitness::Scaled(s, 0.0)),
        1 => (2u32..40).prop_map(Fitness::Ulps),
        1 => (2u32..9, any::<bool>()).prop_map(|(k, negative)| Fitness::Extreme(k, negative)),
        1 => (1u32..9).prop_map(Fitness::Zeros),
    ];
    (
        prop_oneof![2 => 1usize..4, 4 => 2usize..12, 1 => 12usize..40],
        prop_oneof![3 => Just(2u8), 3 => 3u8..6, 1 => 6u8..200],
        fit,
        prop_oneof![5 => Just(0u32), 2 => 2u32..12, 1 => Just(2u32)],
        0u8..4,
        prop::bool::weighted(0.2),
        prop::bool::weighted(0.15),
    )
        .prop_map(|(len, alphabet, fit, invalid_mod, invalid_kind, improve, unique)| ModelCfg {
            len,
            alphabet,
            fit: if unique && !matches!(fit, Fitness::Const(_)) { Fitness::Rising } else { fit },
            invalid_mod: if unique { 0 } else { invalid_mod },
            invalid_kind,
            improve,
            unique,
            hooks: vec![],
            survive: 0,
            delay: 0,
            panic_at: 0,
            verbose_log: false,
        })
        .boxed()
}

pub fn elitism(size: usize) -> BoxedStrategy<f64> {
    let n = size.max(1);
    prop_oneof![
        2 => Just(0.0),
        2 => Just(0.01),
        3 => (0..n).prop_map(move |k| k as f64 / n as f64),
        2 => (0..n).prop_map(move |k| ((k as f64 + 0.5) / n as f64).min(0.999)),
        3 => ratio01(),
        1 => Just(0.999_999_999),
        1 => Just((n - 1) as f64 / n as f64 + 0.2 / n as f64),
    ]
    .boxed()
}

pub fn alg(size: usize, custom: bool) -> BoxedStrategy<Alg> {
    // Some ranges are very narrow.
    let range = || (rate(), prop_oneof![9 => rate(), 1 => Just(2.0)], crate::gen::wide_f64(-12, -2)).prop_map(|(a, b, d)| if b > 1.0 { (a, (a + d).min(1.0)) } else { (a.min(b), a.max(b)) });
    prop_oneof![
        4 => (elitism(size), rate(), rate()).prop_map(|(elitism, cx, mx)| Alg::Ga { elitism, cx, mx }),
        4 => (elitism(size), range(), range(), prop_oneof![9 => 0usize..5, 1 => 5usize..40]).prop_map(|(elitism, cx, mx, interval)| Alg::Aga { elitism, cx, mx, interval }),
        if custom { 2 } else { 0 } => (rate(), rate(), vec(prop_oneof![1 => Just(0usize), 12 => 1usize..60], 1..4)).prop_map(|(cx, mx, sizes)| Alg::Custom { cx, mx, sizes }),
    ]
    .boxed()
}

pub fn sizes() -> BoxedStrategy<usize> {
    prop_oneof![36 => 1usize..4, 60 => 2usize..16, 48 => 10usize..60, 12 => 60usize..260, 1 => 260usize..1600].boxed()
}

pub fn start(len: usize, alphabet: u8, size: usize) -> BoxedStrategy<Start> {
    let genome = move || vec(0..alphabet, len);
    prop_oneof![
        3 => Just(Start::Random),
        2 => genome().prop_map(Start::Individual),
        3 => (prop_oneof![60 => 1..=size.min(60) + 6, 1 => 60usize..1500].prop_flat_map(move |n| vec(vec(0..alphabet, len), n)), 0usize..4).prop_map(|(mut v, dup)| {
            for k in 0..dup {
                let x = v[k * 7 % v.len()].clone();
                v.push(x);
            }
            Start::Population(v)
        }),
    ]
    .boxed()
}

pub fn threads() -> BoxedStrategy<usize> {
    prop_oneof![3 => Just(1usize), 3 => Just(2), 2 => Just(4), 1 => Just(3)].boxed()
}

fn many_threads() -> BoxedStrategy<usize> {
    prop_oneof![30 => Just(1usize), 30 => Just(2), 30 => Just(3), 30 => Just(4), 30 => Just(8), 30 => Just(16), 3 => Just(24), 3 => Just(33), 1 => Just(70), 1 => Just(130)].boxed()
}

fn gens(size: usize) -> BoxedStrategy<usize> {
    let long = (3000 / (size + 20)).clamp(6, 60);
    let very_long = (5000 / (size + 4)).clamp(8, 700);
    prop_oneof![10 => 0usize..3, 50 => 1usize..12, 20 => 6..=long, 1 => 7..=very_long].boxed()
}

/// General runs of all algorithms.
pub fn evo_case(custom: bool) -> BoxedStrategy<EvoCase> {
    (sizes(), cfg())
        .prop_flat_map(move |(size, cfg)| {
            (
                alg(size, custom),
                Just(size),
                evo_strategy(),
                start(cfg.len, cfg.alphabet, size),
                Just(cfg),
                gens(size),
                threads(),
                any::<u64>(),
                prop_oneof![4 => Just(None), 1 => (0u32..5).prop_map(Some)],
            )
        })
        .prop_map(|(alg, size, strategy, start, mut cfg, gens, threads, seed, ov)| {
            cfg.survive = ov.unwrap_or(0);
            EvoCase { alg, size, strategy, cfg, start, gens, threads, seed, overriding: ov.is_some() }
        })
        .boxed()
}

// ---------------------------------------------------------------- checkers

fn describe(s: &Snap) -> String {
    let v: Vec<(u64, f64)> = s.inds.iter().map(|i| (ghash(&i.genome) % 1000 + i.tag, i.fit)).take(12).collect();
    format!("generation {} with {} individuals {v:?}..", s.generation, s.inds.len())
}

/// Elites of `a` that are found unchanged in `b`: fitness values in descending order, largest first.
fn check_elites(c: &EvoCase, a: &Snap, b: &Snap) -> CheckResult {
    let mut last = Ok(());
    let bred = evals(&b.events).len();
    for e in c.elites(a.inds.len()) {
        last = (|| {
            let want = c.target(a.generation).saturating_sub(e);
            ensure!(
                bred == want,
                "generation {} bred {bred} offspring instead of {want} ({} individuals, {e} of {} carried over)",
                a.generation,
                c.target(a.generation),
                a.inds.len()
            );
            if e == 0 {
                return Ok(());
            }
            let keys: HashMap<(Vec<u8>, u64), u64> = b.inds.iter().map(|i| (i.key(), i.fit.to_bits())).collect();
            let present = |i: &TInd| keys.get(&i.key()) == Some(&i.fit.to_bits());
            let boundary = a.inds[a.inds.len() - e].fit;
            let above: Vec<&TInd> = a.inds.iter().filter(|i| i.fit > boundary).collect();
            for i in &above {
                ensure!(present(i), "elite {i:?} of {} is missing from {}", describe(a), describe(b));
            }
            let tied = a.inds.iter().filter(|i| i.fit == boundary && present(i)).count();
            ensure!(
                tied + above.len() >= e,
                "only {} of the {e} elites of {} are in {}",
                tied + above.len(),
                describe(a),
                describe(b)
            );
            let (x, y) = (a.inds.last().unwrap().fit, b.inds.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max));
            ensure!(y >= x, "best fitness fell from {x} to {y} after generation {}", a.generation);
            Ok(())
        })();
        if last.is_ok() {
            break;
        }
    }
    last
}

/// Runs with large populations, by size far beyond what `evo_case` makes likely.
fn large_case(start_only_random: bool) -> BoxedStrategy<EvoCase> {
    let size = prop_oneof![40 => 300usize..1500, 20 => 1500usize..6000, 2 => 66_000usize..72_000];
    (size, any::<u64>(), prop_oneof![Just(1usize), Just(2), Just(8)])
        .prop_flat_map(|(n, seed, threads)| (Just(n), alg(n, false), Just(seed), Just(threads), evo_strategy(), 1u32..400, 0u8..10))
        .prop_map(move |(size, alg, seed, threads, strategy, levels, k)| EvoCase {
            alg,
            size,
            // Cheap for many individuals.
            strategy: if size > 3000 { S::T(1 + k as usize % 3) } else { strategy },
            cfg: ModelCfg {
                len: 6,
                alphabet: 200,
                fit: match k % 5 { 0 => Fitness::Levels(levels + size as u32 / 10), 1 => Fitness::Hash, 2 if size < 6000 => Fitness::Sum, 4 if size < 6000 => Fitness::Rising, _ => Fitness::Scaled(1e3, -500.0) },
                invalid_mod: if k % 2 == 1 && k % 5 != 4 { 2 + levels % 30 } else { 0 },
                invalid_kind: (seed >> 9) as u8,
                unique: k % 5 == 4 && size < 6000,
                improve: seed % 5 == 0,
                ..plain_cfg()
            },
            start: if !start_only_random && seed % 4 == 0 {
                Start::Population((0..size as u64).map(|i| (0..6).map(|k| (mix(seed ^ mix(i * 6 + k)) % 200) as u8).collect()).collect())
            } else if seed % 4 == 1 {
                Start::Individual(vec![(seed >> 20) as u8 % 200; 6])
            } else {
                Start::Random
            },
            gens: 1 + (seed >> 3) as usize % if size > 6000 { 2 } else { 4 },
            threads,
            seed,
            overriding: false,
        })
        .boxed()
}

fn large(start_only_random: bool, check: fn(&EvoCase, &mut Obs) -> CheckResult) -> Box<dyn Sub> {
    Box::new(Prop {
        name: "large_populations",
        rule: "the same on runs of 1 to 4 generations with population sizes of 300..6000, sometimes 66000..72000, of mostly distinct individuals; non-trivial: as above",
        quick: 480,
        thorough: 19_200,
        strat: if start_only_random { |_| large_case(true) } else { |_| large_case(false) },
        check,
    })
}

/// Runs of many more generations than `evo_case` makes likely, with few and small individuals.
pub fn long_case(start_only_random: bool) -> BoxedStrategy<EvoCase> {
    let size = prop_oneof![4 => 1usize..4, 6 => 2usize..7, 1 => 7usize..14];
    let gens = prop_oneof![12 => 250usize..1200, 120 => 1000usize..3000, 2 => 65_537usize..66_500];
    (size, cfg(), gens)
        .prop_flat_map(|(size, cfg, gens)| {
            (
                alg(size, true),
                Just(size),
                evo_strategy(),
                start(cfg.len.min(5), cfg.alphabet, size.min(7)),
                Just(cfg),
                Just(gens),
                prop_oneof![9 => Just(1usize), 1 => Just(2)],
                any::<u64>(),
                prop_oneof![6 => Just(None), 1 => (0u32..5).prop_map(Some)],
            )
        })
        .prop_map(move |(mut alg, size, strategy, mut start, mut cfg, gens, threads, seed, ov)| {
            cfg.len = cfg.len.min(5);
            cfg.survive = ov.unwrap_or(0);
            match &mut start {
                Start::Population(v) if start_only_random => start = Start::Individual(v[0].clone()),
                Start::Population(v) => v.truncate(10),
                _ => {}
            }
            match &mut alg {
                Alg::Custom { sizes, .. } => sizes.iter_mut().for_each(|n| *n %= 9),
                // The generation number at which the rates change passes any small number.
                Alg::Aga { interval, .. } if seed % 5 == 0 => *interval = 3 + (seed >> 7) as usize % 600,
                _ => {}
            }
            let gens = if size > 6 { gens.min(1500) } else { gens };
            EvoCase { alg, size, strategy, cfg, start, gens, threads: if gens > 60_000 { 1 } else { threads }, seed, overriding: ov.is_some() }
        })
        .boxed()
}

fn long(start_only_random: bool, check: fn(&EvoCase, &mut Obs) -> CheckResult) -> Box<dyn Sub> {
    Box::new(Prop {
        name: "long_histories",
        rule: "the same on runs of 250 to 3000 generations, sometimes 66000, with population sizes of 1..14 and adjustment intervals of up to 600; non-trivial: as above",
        quick: 480,
        thorough: 19_200,
        strat: if start_only_random { |_| long_case(true) } else { |_| long_case(false) },
        check,
    })
}

fn check_elites_in_run(c: &EvoCase, obs: &mut Obs) -> CheckResult {
    let Some(t) = run_ok(c, obs)? else { return Ok(()) };
    for w in t.snaps.windows(2) {
        check_elites(c, &w[0], &w[1])?;
        let e = c.elites(w[0].inds.len())[0];
        obs.nontrivial_if(e > 0 && !evals(&w[1].events).is_empty());
        obs.label_if(e > 1 && w[0].inds[w[0].inds.len() - e].fit == w[0].inds.last().unwrap().fit && w[0].inds.len() > e, "elites tied with others");
        obs.label_if(w[0].inds.len() < c.size, "shrunken population");
        obs.label_if(e == c.size, "all elite");
    }
    Ok(())
}

fn c01() -> Vec<Box<dyn Sub>> {
    vec![
        large(false, check_elites_in_run),
        long(false, check_elites_in_run),
        Box::new(Prop {
            name: "elites_in_runs",
            rule: "whole runs of GA, AGA and a user-defined algorithm; every pair of consecutive generations is compared; non-trivial: some generation has at least one elite and at least one bred offspring",
            quick: 60_000,
            thorough: 2_400_000,
            strat: |_| evo_case(true),
            check: check_elites_in_run,
        }),
        Box::new(Prop {
            name: "elites_direct",
            rule: "select_elites of GA, AGA and the default on synthetic populations of 1..3000 (rarely 70000) individuals with heavy ties and any size and rate; non-trivial: at least one elite and one non-elite",
            quick: 240_000,
            thorough: 9_600_000,
            strat: |_| (prop_oneof![8000 => 1usize..40, 4000 => 1usize..400, 2000 => 400usize..3000, 1 => 65_000usize..70_000])
                .prop_flat_map(|n| (Just(n), prop_oneof![Just(n), 1..=n, n..=n + 40], 1u32..50, any::<u64>(), 0u8..3))
                .prop_flat_map(|(n, size, levels, seed, kind)| (Just(n), Just(size), elitism(size), Just(levels), Just(seed), Just(kind)))
                .prop_map(|(n, size, elitism, levels, seed, kind)| EliteCase { n, size, elitism, levels, seed, kind }).boxed(),
            check: |c, obs| {
                let pop = synthetic(c.n, c.levels, c.seed);
                let shared = Shared::new(plain_cfg());
                let mut elites = vec![];
                let evo = EvoCase {
                    alg: if c.kind == 2 { Alg::Custom { cx: 0.5, mx: 0.5, sizes: vec![c.size] } } else { Alg::Ga { elitism: c.elitism, cx: 0.5, mx: 0.5 } },
                    size: c.size, strategy: S::Rank, cfg: plain_cfg(), start: Start::Random, gens: 1, threads: 1, seed: 0, overriding: false,
                };
                match c.kind {
                    0 => {
                        let mut a = GeneticAlgorithm::from(TM(shared));
                        a.configure(&GeneticAlgorithmParameters { population_size: c.size, elitism_rate: c.elitism, ..Default::default() });
                        a.select_elites(&pop, &mut elites);
                    }
                    1 => {
                        let mut a = AdaptiveGeneticAlgorithm::from(TM(shared));
                        a.configure(&AdaptiveGeneticAlgorithmParameters { population_size: c.size, elitism_rate: c.elitism, ..Default::default() });
                        a.select_elites(&pop, &mut elites);
                    }
                    _ => Custom::from(TM(shared)).select_elites(&pop, &mut elites),
                }
                ensure!(evo.elites(c.n).contains(&elites.len()), "{} elites of {} for size {} and rate {}", elites.len(), c.n, c.size, c.elitism);
                let mut got: Vec<f64> = elites.iter().map(|e| e.fit).collect();
                got.sort_by(f64::total_cmp);
                let want: Vec<f64> = pop[pop.len() - elites.len()..].iter().map(|i| i.fit).collect();
                ensure!(got == want, "elites of a population of {} (size {}, rate {}) have fitness {got:?} instead of {want:?}", c.n, c.size, c.elitism);
                let members: HashSet<_> = pop.iter().map(|i| i.key()).collect();
                let distinct: HashSet<_> = elites.iter().map(|i| i.key()).collect();
                ensure!(distinct.len() == elites.len() && distinct.is_subset(&members), "elites are not distinct members");
                obs.nontrivial_if(!elites.is_empty() && elites.len() < c.n);
                Ok(())
            },
        }),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EliteCase {
    n: usize,
    size: usize,
    elitism: f64,
    levels: u32,
    seed: u64,
    kind: u8,
}

pub fn plain_cfg() -> ModelCfg {
    ModelCfg {
        len: 4,
        alphabet: 4,
        fit: Fitness::Sum,
        invalid_mod: 0,
        invalid_kind: 0,
        improve: false,
        unique: false,
        hooks: vec![],
        survive: 0,
        delay: 0,
        panic_at: 0,
        verbose_log: false,
    }
}

/// A population of exactly n distinct individuals with few fitness levels.
pub fn synthetic(n: usize, levels: u32, seed: u64) -> Population<TInd> {
    let inds = (0..n)
        .map(|i| {
            let h = mix(seed ^ mix(i as u64));
            let mut t = TInd::new(vec![(h % 4) as u8]);
            t.tag = i as u64 + 1;
            t.fit = (h >> 20) as u32 as f64 % levels as f64;
            t
        })
        .collect();
    aged(inds, seed)
}

fn check_best_ever(c: &EvoCase, obs: &mut Obs) -> CheckResult {
    let Some(t) = run_ok(c, obs)? else { return Ok(()) };
    let Outcome::Best(best) = &t.outcome else { return Err("no individual".into()) };
    let all = t.snaps.iter().flat_map(|s| &s.inds);
    let top = all.clone().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
    ensure!(best.fit == top, "the run returned fitness {}, but the best individual seen had {top}", best.fit);
    ensure!(all.clone().any(|i| i == best && i.fit == best.fit), "the returned individual {best:?} was in no population");
    ensure!(best.is_valid(), "the returned individual is invalid");
    let final_best = t.snaps.last().unwrap().inds.last().unwrap().fit;
    obs.label_if(final_best < top, "best individual was lost on the way");
    obs.nontrivial_if(final_best < top || t.snaps.len() > 3);
    Ok(())
}

fn c02() -> Vec<Box<dyn Sub>> {
    vec![large(true, check_best_ever), long(true, check_best_ever), Box::new(Prop {
        name: "best_ever",
        rule: "runs from random and single individuals, elitism zero in half of them; non-trivial: the final population's best is below the best ever seen, or at least three generations",
        quick: 120_000,
        thorough: 4_800_000,
        strat: |_| (evo_case(true), any::<bool>(), any::<bool>()).prop_map(|(mut c, no_elite, individual)| {
            if let Start::Population(v) = &c.start {
                c.start = if individual { Start::Individual(v[0].clone()) } else { Start::Random };
            }
            match &mut c.alg {
                Alg::Ga { elitism, .. } | Alg::Aga { elitism, .. } if no_elite => *elitism = 0.0,
                _ => {}
            }
            c
        }).boxed(),
        check: check_best_ever,
    })]
}

pub fn close(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= scale || a == b || (a.is_nan() && b.is_nan())
}

/// Well-formedness of one population.
pub fn check_population(c: &EvoCase, s: &Snap, what: &str) -> CheckResult {
    let v = &s.inds;
    ensure!(!v.is_empty(), "{what}: empty population");
    for w in v.windows(2) {
        ensure!(w[0].fit <= w[1].fit, "{what}: not sorted: {} before {}", w[0].fit, w[1].fit);
    }
    let mut seen = HashSet::new();
    for i in v {
        ensure!(seen.insert((&i.genome, i.tag)), "{what}: {i:?} occurs twice among {} individuals", v.len());
        let (f, ok) = c.cfg.eval(&i.genome, i.tag);
        ensure!(ok && f.is_finite() && i.is_valid(), "{what}: contains the invalid individual {i:?}");
        ensure!(f.to_bits() == i.fit.to_bits(), "{what}: {i:?} should have fitness {f}");
        ensure!(i.steps.is_empty(), "{what}: {i:?} was changed after its evaluation");
    }
    let st = &s.stats;
    let (min, max) = (v[0].fit, v[v.len() - 1].fit);
    ensure!(st.count() == v.len(), "{what}: statistics count {} of {}", st.count(), v.len());
    ensure!(st.min() == min && st.max() == max, "{what}: statistics say {}..{} instead of {min}..{max}", st.min(), st.max());
    ensure!(v[st.arg_min()].fit == min && v[st.arg_max()].fit == max, "{what}: statistics point to the wrong individuals");
    let n = v.len() as f64;
    let avg = min + v.iter().map(|i| i.fit / n - min / n).sum::<f64>();
    let spread = min.abs().max(max.abs());
    ensure!(close(st.avg(), avg, 1e-9 * spread), "{what}: average {} instead of {avg}", st.avg());
    let range = max - min;
    let var = if v.len() > 1 { v.iter().map(|i| (i.fit - avg) * (i.fit - avg)).sum::<f64>() / (n - 1.0) } else { 0.0 };
    if var.is_finite() {
        let tol = 1e-9 * range * range + 1e-12 * spread * range + 1e-26 * spread * spread;
        ensure!(close(st.var(), var, tol), "{what}: variance {} instead of {var}", st.var());
        ensure!(close(st.std() * st.std(), st.var(), 1e-9 * st.var()), "{what}: deviation {} for variance {}", st.std(), st.var());
    }
    ensure!(s.fittest.fit == max, "{what}: fittest has {} instead of {max}", s.fittest.fit);
    if s.generation > 0 {
        let cap = c.target(s.generation - 1);
        // A default elite is kept even if the target is smaller.
        let cap = if matches!(c.alg, Alg::Custom { .. }) { cap.max(1) } else { cap };
        ensure!(v.len() <= cap, "{what}: {} individuals exceed the population size {cap}", v.len());
    }
    Ok(())
}

fn check_well_formed(c: &EvoCase, obs: &mut Obs) -> CheckResult {
    let Some(t) = run_ok(c, obs)? else { return Ok(()) };
    for s in &t.snaps {
        check_population(c, s, &format!("generation {}", s.generation))?;
        if s.generation > 0 {
            let ties = s.inds.windows(2).any(|w| w[0].fit == w[1].fit);
            let e = evals(&s.events);
            let invalid = e.iter().any(|x| !x.valid);
            let dup = e.iter().map(|x| (&x.genome, x.tag)).collect::<HashSet<_>>().len() < e.len();
            obs.nontrivial_if(ties || invalid || dup);
            obs.label_if(ties, "generation with ties");
            obs.label_if(invalid, "generation with invalid offspring");
            obs.label_if(dup, "generation with duplicate offspring");
        }
    }
    if let Outcome::Pop { inds, generation, .. } = &t.outcome {
        let l = t.snaps.last().unwrap();
        let s = Snap { inds: inds.clone(), generation: *generation, ..l.clone() };
        check_population(c, &s, "returned population")?;
    }
    Ok(())
}

fn c03() -> Vec<Box<dyn Sub>> {
    vec![large(false, check_well_formed), long(false, check_well_formed), Box::new(Prop {
        name: "well_formed",
        rule: "every population shown or returned in whole runs (all algorithms, starts, selections, invalid individuals, heavy fitness ties, few distinct genomes); non-trivial: a bred generation whose population has a fitness tie, or that follows an invalid or duplicate offspring",
        quick: 120_000,
        thorough: 4_800_000,
        strat: |_| evo_case(true),
        check: check_well_formed,
    })]
}

fn check_run_loop(c: &EvoCase, obs: &mut Obs) -> CheckResult {
    let Some(t) = run_ok(c, obs)? else { return Ok(()) };
    ensure!(t.snaps.len() == c.gens + 1, "{} progress calls instead of {}", t.snaps.len(), c.gens + 1);
    ensure!(t.tail.is_empty(), "work went on after progress returned false: {:?}", t.tail.iter().take(3).collect::<Vec<_>>());
    let mut stagnation = 0;
    for (g, s) in t.snaps.iter().enumerate() {
        ensure!(s.generation == g, "progress call {g} showed generation {}", s.generation);
        if g > 0 {
            let (a, b) = (t.snaps[g - 1].inds.last().unwrap().fit, s.inds.last().unwrap().fit);
            stagnation = if b > a { 0 } else { stagnation + 1 };
            obs.label_if(b < a, "best fitness fell");
            // Exactly one generation's worth of offspring was bred.
            let n = evals(&s.events).len();
            let ok = c.elites(t.snaps[g - 1].inds.len()).iter().any(|e| c.target(g - 1).saturating_sub(*e) == n);
            ensure!(ok, "{n} offspring were bred between progress calls {} and {g} (size {})", g - 1, c.target(g - 1));
        }
        ensure!(s.stagnation == stagnation, "generation {g} reports stagnation {} instead of {stagnation}", s.stagnation);
    }
    obs.label_if(stagnation > 3, "stagnation above 3");
    if let Outcome::Pop { inds, generation, stagnation: st } = &t.outcome {
        let l = t.snaps.last().unwrap();
        ensure!(inds == &l.inds, "the returned population is not the one last shown");
        ensure!(*generation == l.generation && *st == l.stagnation, "the returned population's counters changed");
    }
    obs.nontrivial_if(t.snaps.len() >= 3);
    Ok(())
}

fn c04() -> Vec<Box<dyn Sub>> {
    vec![c04_long(), large(false, check_run_loop), Box::new(Prop {
        name: "run_loop",
        rule: "runs of 0..60 generations of every algorithm and start; the sequence of progress calls, the breeding between them and what is returned; non-trivial: at least two generations bred",
        quick: 100_000,
        thorough: 4_000_000,
        strat: |_| evo_case(true),
        check: check_run_loop,
    })]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongRun {
    size: usize,
    adaptive: bool,
    interval: usize,
    elitism: f64,
    /// The best fitness rises every so many evaluations (0: never).
    rise: u64,
    noisy: bool,
    gens: usize,
    threads: usize,
    seed: u64,
}

#[derive(Clone, Debug, PartialEq)]
struct Tiny(u64, f64);
impl Individual for Tiny {
    fn fitness(&self) -> f64 {
        self.1
    }
}
impl RandomIndividual<()> for Tiny {
    fn new_random<R: rand::Rng>(_: &(), _: &mut R) -> Self {
        Tiny(0, 0.0)
    }
}
struct TinyModel {
    evals: std::sync::Arc<std::sync::atomic::AtomicU64>,
    rise: u64,
    noisy: bool,
    seed: u64,
}
impl EvolutionModel for TinyModel {
    type Individual = Tiny;
    type Rng = rand::rngs::SmallRng;
    fn rng() -> Self::Rng {
        <rand::rngs::SmallRng as rand::SeedableRng>::seed_from_u64(7)
    }
    fn crossover(&self, a: &Tiny, _: &Tiny, _: &mut Self::Rng) -> Tiny {
        a.clone()
    }
    fn mutate(&self, _: &mut Tiny, _: &mut Self::Rng) {}
    fn can_survive(&self, _: &Tiny, _: &Tiny, _: &Population<Tiny>, _: &mut Self::Rng) -> bool {
        true
    }
    fn evaluate(&self, i: &mut Tiny) {
        let k = self.evals.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1;
        let base = if self.rise == 0 { 0.0 } else { (k / self.rise) as f64 };
        *i = Tiny(k, base - if self.noisy { (mix(self.seed ^ k) % 4) as f64 } else { 0.0 });
    }
}

/// Runs too long to be recorded: only counters and bests are followed.
fn c04_long() -> Box<dyn Sub> {
    Box::new(Prop {
        name: "long_runs",
        rule: "runs of 100..3000 (rarely 66000) generations of GA and AGA with populations of 1..4, whose best rises every so often or never: generation numbers, stagnation, number of evaluations and of progress calls; non-trivial: all",
        quick: 700,
        thorough: 28_000,
        strat: |_| (1usize..5, any::<bool>(), 0usize..4, 0u32..4, prop_oneof![Just(0u64), 1u64..40, 200u64..9000], any::<bool>(), prop_oneof![100 => 100usize..700, 60 => 700usize..3000, 1 => Just(66_000usize)], 1usize..3, any::<u64>())
            .prop_map(|(size, adaptive, interval, e, rise, noisy, gens, threads, seed)| LongRun {
                elitism: (e as usize % size) as f64 / size as f64 + 1e-9, size, adaptive, interval, rise, noisy, gens, threads, seed }).boxed(),
        check: |c, obs| {
            use std::sync::atomic::Ordering::Relaxed;
            let evals = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
            let model = TinyModel { evals: evals.clone(), rise: c.rise, noisy: c.noisy, seed: c.seed };
            let mut problem = None;
            let mut calls = 0;
            let mut last = (0.0, 0, 0u64, 0);
            let mut stop = 0u64;
            let e = (c.size as f64 * c.elitism).floor() as usize;
            let progress = |p: &Population<Tiny>| {
                let (best, n) = (p.iter().map(|i| i.1).fold(f64::NEG_INFINITY, f64::max), evals.load(Relaxed));
                let (prev, stagnation, before, len) = last;
                let want = if calls == 0 || best > prev { 0 } else { stagnation + 1 };
                if problem.is_none() {
                    if p.generation() != calls {
                        problem = Some(format!("progress call {calls} showed generation {}", p.generation()));
                    } else if p.stagnation() != want {
                        problem = Some(format!("generation {calls} reports stagnation {} instead of {want} (best {prev} became {best})", p.stagnation()));
                    } else if calls > 0 && n - before != (c.size - e.min(len)) as u64 {
                        problem = Some(format!("{} evaluations between generations {} and {calls}, size {}, {e} elites of {len}", n - before, calls - 1, c.size));
                    }
                }
                last = (best, want, n, p.len());
                calls += 1;
                stop = n;
                calls <= c.gens
            };
            catch(|| in_pool(c.threads, c.seed, || if c.adaptive {
                let a = AdaptiveGeneticAlgorithm::build_evolution(model);
                let p = AdaptiveGeneticAlgorithmParameters { population_size: c.size, elitism_rate: c.elitism, parameter_adjustment_interval: c.interval, selection_strategy: SelectionStrategy::Rank, ..Default::default() };
                a.run(&(), &p, progress);
            } else {
                let a = GeneticAlgorithm::build_evolution(model);
                let p = GeneticAlgorithmParameters { population_size: c.size, elitism_rate: c.elitism, selection_strategy: SelectionStrategy::Rank, ..Default::default() };
                a.run(&(), &p, progress);
            }))?;
            if let Some(m) = problem {
                return Err(m);
            }
            ensure!(calls == c.gens + 1, "{calls} progress calls instead of {}", c.gens + 1);
            ensure!(evals.load(Relaxed) == stop, "evaluations went on after progress returned false");
            obs.nontrivial = true;
            obs.label_if(last.1 > 255, "stagnation above 255");
            obs.label_if(c.gens > 65_535, "more than 65535 generations");
            Ok(())
        },
    })
}

/// Offspring that must be in the next population.
pub fn check_refill(c: &EvoCase, a: &Snap, b: &Snap) -> Result<bool, String> {
    check_elites(c, a, b)?;
    let e = evals(&b.events);
    let keys: HashSet<(&[u8], u64)> = b.inds.iter().map(|i| (&i.genome[..], i.tag)).collect();
    let mut kept = 0;
    if c.overriding {
        for ev in &b.events {
            if let Ev::Survive { child, parent, ok, .. } = ev {
                let want: &[u8] = if *ok && c.cfg.valid(child, 0) { child } else { &parent.genome };
                ensure!(
                    b.inds.iter().any(|i| i.genome == want),
                    "{} is missing from {}", if *ok { "a surviving offspring" } else { "the parent kept for a rejected offspring" }, describe(b)
                );
                kept += 1;
            }
        }
    } else {
        for x in &e {
            if x.valid && f64::from_bits(x.fit) >= f64::from_bits(x.parent) {
                ensure!(
                    keys.contains(&(&x.genome[..], x.tag)),
                    "offspring {:?} with fitness {} (parent {}) is missing from {}",
                    x.genome, f64::from_bits(x.fit), f64::from_bits(x.parent), describe(b)
                );
                kept += 1;
            }
        }
    }
    if c.cfg.unique && !c.overriding {
        ensure!(
            b.inds.len() == c.target(a.generation).max(c.elites(a.inds.len())[0].min(1)),
            "all offspring are distinct, but {} of {} places are filled",
            b.inds.len(),
            c.target(a.generation)
        );
    }
    Ok(kept > 0)
}

fn check_refill_in_run(c: &EvoCase, obs: &mut Obs) -> CheckResult {
    let Some(t) = run_ok(c, obs)? else { return Ok(()) };
    for w in t.snaps.windows(2) {
        let k = check_refill(c, &w[0], &w[1])?;
        obs.nontrivial_if(k);
        let n = evals(&w[1].events).len();
        obs.label_if(n == 1, "one offspring");
        obs.label_if(n == 0, "no offspring");
        obs.label_if(c.cfg.unique && !c.overriding, "distinct offspring");
    }
    Ok(())
}

fn c05() -> Vec<Box<dyn Sub>> {
    vec![
        long(false, check_refill_in_run),
        Box::new(Prop {
            name: "refill",
            rule: "runs of all algorithms with any size from 1 and elitism leaving 0, 1 or more places; number bred and presence of each surviving offspring in every generation; non-trivial: some generation with a surviving offspring",
            quick: 60_000,
            thorough: 2_400_000,
            strat: |_| evo_case(true),
            check: check_refill_in_run,
        }),
        Box::new(Exhaust {
            name: "all_small_sizes",
            rule: "every population size 1..24 x elite count x algorithm with distinct offspring, four generations; non-trivial: at least one offspring per generation",
            cases: |_| Box::new((1usize..25).flat_map(|n| (0..n).flat_map(move |e| (0usize..3).flat_map(move |k| [1usize, 3].into_iter().map(move |threads| EvoCase {
                alg: match k {
                    0 => Alg::Ga { elitism: (e as f64 + 0.25) / n as f64, cx: 0.5, mx: 0.5 },
                    1 => Alg::Aga { elitism: (e as f64 + 0.25) / n as f64, cx: (0.2, 0.9), mx: (0.1, 0.7), interval: 1 },
                    _ => Alg::Custom { cx: 0.5, mx: 0.5, sizes: vec![n, e + 1] },
                },
                size: n, strategy: S::T(2), cfg: ModelCfg { unique: true, fit: if e % 2 == 0 { Fitness::Rising } else { Fitness::Const(1.0) }, ..plain_cfg() },
                start: Start::Random, gens: 4, threads, seed: (n * 1000 + e * 10 + k) as u64, overriding: false,
            }))))),
            check: |c, obs| {
                let Some(t) = run_ok(c, obs)? else { return Ok(()) };
                for w in t.snaps.windows(2) {
                    check_refill(c, &w[0], &w[1])?;
                }
                obs.nontrivial = true;
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "large_sizes",
            rule: "population sizes 300..3000 (rarely 68000) with distinct offspring on 1..8 threads; non-trivial: all",
            quick: 1_440,
            thorough: 57_600,
            strat: |_| prop_oneof![100 => 300usize..3000, 1 => 65_000usize..68_000].prop_flat_map(|n| (Just(n), alg(n, false), prop_oneof![Just(1usize), Just(2), Just(8)], any::<u64>(), any::<bool>())).prop_map(|(size, alg, threads, seed, rising)| EvoCase {
                alg, size, strategy: S::T(3), cfg: ModelCfg { unique: true, fit: if rising || size > 3000 { Fitness::Rising } else { Fitness::Const(0.5) }, ..plain_cfg() },
                start: Start::Random, gens: 3, threads, seed, overriding: false }).boxed(),
            check: |c, obs| {
                let Some(t) = run_ok(c, obs)? else { return Ok(()) };
                for w in t.snaps.windows(2) {
                    check_refill(c, &w[0], &w[1])?;
                }
                obs.nontrivial = true;
                Ok(())
            },
        }),
    ]
}

// ---------------------------------------------------------------- C08

fn lerp(r: (f64, f64), t: f64) -> f64 {
    r.0 + (r.1 - r.0) * t
}

/// Expected diversity from the initial and the current standard deviation.
fn diversity(reference: f64, now: f64) -> f64 {
    if reference == 0.0 {
        if now > 0.0 { 1.0 } else { 0.0 }
    } else {
        (now / reference).clamp(0.0, 1.0)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AgaCase {
    cx: (f64, f64),
    mx: (f64, f64),
    interval: usize,
    pops: Vec<Vec<f64>>,
    hooks: Vec<Hook>,
    second: Option<(f64, f64)>,
}

fn check_rates(cx: (f64, f64), mx: (f64, f64), interval: usize, hooks: &[Hook], seen: &[(f64, f64, f64)]) -> Result<usize, String> {
    let mut cur = (f64::NAN, f64::NAN);
    let mut updates = 0;
    for (g, &(std, c, m)) in seen.iter().enumerate() {
        if g == 0 {
            cur = (cx.1, mx.0);
        } else if interval != 0 && g % interval == 0 {
            let d = diversity(seen[0].0, std);
            // The deviation of a population can overflow; then any rate within the range is admitted.
            cur = if d.is_nan() {
                (c.clamp(cx.0, cx.1), m.clamp(mx.0, mx.1))
            } else {
                (lerp(cx, d), lerp(mx, 1.0 - d))
            };
            updates += 1;
        }
        let near = |a: f64, b: f64| (a - b).abs() <= 1e-9;
        ensure!(
            near(c, cur.0) && near(m, cur.1),
            "generation {g}: crossover rate {c} and mutation rate {m}, expected {} and {} (ranges {cx:?} {mx:?}, interval {interval}, deviation {std} of initially {})",
            cur.0, cur.1, seen[0].0
        );
        ensure!(
            c >= cx.0.min(cx.1) - 1e-12 && c <= cx.0.max(cx.1) + 1e-12 && m >= mx.0.min(mx.1) - 1e-12 && m <= mx.0.max(mx.1) + 1e-12
                || hooks.iter().any(|h| h.generation <= g),
            "generation {g}: rates {c} / {m} outside {cx:?} / {mx:?}"
        );
        cur = (c, m);
        for h in hooks.iter().filter(|h| h.generation == g) {
            cur = (h.cx.unwrap_or(cur.0), h.mx.unwrap_or(cur.1));
        }
    }
    Ok(updates)
}

fn hook_log(s: &Snap) -> Vec<(Fp, f64, f64)> {
    s.events
        .iter()
        .filter_map(|e| match e {
            Ev::Hook { fp, cx, mx } => Some((*fp, f64::from_bits(*cx), f64::from_bits(*mx))),
            _ => None,
        })
        .collect()
}

pub fn rate_hooks(gens: usize) -> BoxedStrategy<Vec<Hook>> {
    vec(
        (0..gens.max(1), prop::option::of(rate()), prop::option::of(rate())).prop_map(|(generation, cx, mx)| Hook { generation, cx, mx, swap: None }),
        0..3,
    )
    .boxed()
}

fn check_rates_in_run(c: &EvoCase, obs: &mut Obs) -> CheckResult {
    let Some(t) = run_ok(c, obs)? else { return Ok(()) };
    let Alg::Aga { cx, mx, interval, .. } = c.alg else { unreachable!() };
    let mut seen = vec![];
    for w in t.snaps.windows(2) {
        let h = hook_log(&w[1]);
        ensure!(h.len() == 1, "the hook was called {} times in generation {}", h.len(), w[0].generation);
        seen.push((w[0].stats.std(), h[0].1, h[0].2));
        // The rates in force are the ones used for breeding.
        let (mut m, mut x) = (h[0].2, h[0].1);
        for k in c.cfg.hooks.iter().filter(|k| k.generation == w[0].generation) {
            m = k.mx.unwrap_or(m);
            x = k.cx.unwrap_or(x);
        }
        let e = evals(&w[1].events);
        let muts = e.iter().filter(|e| e.steps.contains(&b'm')).count() as u64;
        ensure!(e.is_empty() || stat::binom_ok(muts, e.len() as u64, m.clamp(0.0, 1.0)), "generation {}: {muts} of {} offspring mutated at rate {m}", w[0].generation, e.len());
        ensure!(x > 0.0 || e.iter().all(|e| !e.steps.contains(&b'c')), "crossover at rate {x}");
    }
    let updates = check_rates(cx, mx, interval, &c.cfg.hooks, &seen)?;
    obs.nontrivial_if(updates > 0);
    obs.label_if(t.snaps[0].stats.std() == 0.0, "no initial spread");
    obs.label_if(seen.iter().any(|s| s.0 > seen[0].0), "spread above the initial one");
    obs.label_if(interval == 0, "interval 0");
    obs.label_if(!c.cfg.hooks.is_empty(), "hook changes rates");
    Ok(())
}

fn c08() -> Vec<Box<dyn Sub>> {
    let range = || (rate(), rate()).prop_map(|(a, b)| (a.min(b), a.max(b)));
    let _ = range;
    vec![
        Box::new(Prop {
            name: "long_histories",
            rule: "the same on runs of 250 to 3000 generations, sometimes 66000, with intervals of up to 600 and hooks late in the run; non-trivial: as above",
            quick: 480,
            thorough: 19_200,
            strat: |_| (long_case(false), range_rates(), range_rates(), prop_oneof![0usize..8, 3usize..700], elitism(5))
                .prop_flat_map(|(c, cx, mx, interval, elitism)| { let h = rate_hooks(c.gens); (Just((c, cx, mx, interval, elitism)), prop_oneof![2 => Just(vec![]).boxed(), 1 => h]) })
                .prop_map(|((mut c, cx, mx, interval, elitism), hooks)| {
                    c.alg = Alg::Aga { elitism, cx, mx, interval };
                    c.cfg.hooks = hooks;
                    c
                }).boxed(),
            check: check_rates_in_run,
        }),
        Box::new(Prop {
            name: "rates_in_runs",
            rule: "adaptive runs with rate ranges, intervals 0..7, hooks that change the rates, and starts with and without spread; the rates shown to the hook in each generation against the rule; non-trivial: at least one adjustment",
            quick: 60_000,
            thorough: 2_400_000,
            strat: |_| (evo_case(false), (rate(), rate()), (rate(), rate()), 0usize..8, elitism(20), 1usize..30, prop::bool::weighted(0.3))
                .prop_flat_map(|(c, a, b, interval, elitism, gens, hooked)| (Just((c, a, b, interval, elitism, gens)), if hooked { rate_hooks(gens) } else { Just(vec![]).boxed() }))
                .prop_map(|((mut c, a, b, interval, elitism, gens), hooks)| {
                    c.alg = Alg::Aga { elitism, cx: (a.0.min(a.1), a.0.max(a.1)), mx: (b.0.min(b.1), b.0.max(b.1)), interval };
                    c.gens = if c.size > 60 { gens.min(8) } else { gens };
                    c.cfg.hooks = hooks;
                    c
                }).boxed(),
            check: check_rates_in_run,
        }),
        Box::new(Prop {
            name: "rates_direct",
            rule: "the adaptive algorithm driven through configure / prepare_for_next_population with synthetic populations of chosen spread, twice with different parameters; non-trivial: at least one adjustment with a diversity strictly between 0 and 1",
            quick: 480_000,
            thorough: 19_200_000,
            strat: |_| {
                let pop = (1usize..8, prop_oneof![Just(0.0f64), 0.0f64..2.0, wide_f64(-9, 9)], -5.0f64..5.0).prop_flat_map(|(n, s, o)|
                    vec(0.0f64..1.0, n).prop_map(move |v| v.iter().map(|x| x * s + o).collect::<Vec<f64>>())).boxed();
                let short = (range_rates(), range_rates(), prop_oneof![30 => 0usize..5, 1 => 5usize..400], vec(pop.clone(), 1..14), prop::option::weighted(0.3, (rate(), rate())));
                // Long histories, in which the generation number passes the range of small integers.
                let long = (range_rates(), range_rates(), prop_oneof![1usize..8, 5usize..400], vec(pop.clone(), 200..900), prop::option::weighted(0.1, (rate(), rate())));
                (prop_oneof![200 => short.boxed(), 1 => long.boxed()], prop::option::weighted(0.06, any::<prop::sample::Index>()))
                    .prop_map(|((cx, mx, interval, mut pops, second), huge)| {
                        if let Some(k) = huge {
                            // One population whose deviation overflows.
                            let k = k.index(pops.len());
                            pops[k].iter_mut().for_each(|x| *x *= 1e200);
                        }
                        (cx, mx, interval, pops, second)
                    })
                    .prop_flat_map(|(cx, mx, interval, pops, second)| (Just((cx, mx, interval)), rate_hooks(pops.len()), Just(pops), Just(second)))
                    .prop_map(|((cx, mx, interval), hooks, pops, second)| AgaCase { cx, mx, interval, pops, hooks, second }).boxed()
            },
            check: |c, obs| {
                let shared = Shared::new(ModelCfg { hooks: c.hooks.clone(), ..plain_cfg() });
                let mut a = AdaptiveGeneticAlgorithm::from(TM(shared.clone()));
                let mut rounds = vec![(c.cx, c.mx)];
                if let Some((x, y)) = c.second {
                    rounds.insert(0, ((x.min(y), x.max(y)), (y.min(x), 1.0)));
                }
                for (cx, mx) in rounds {
                    a.configure(&AdaptiveGeneticAlgorithmParameters {
                        population_size: 10, crossover_rate_range: cx.0..cx.1, mutation_rate_range: mx.0..mx.1,
                        parameter_adjustment_interval: c.interval, selection_strategy: SelectionStrategy::Rank, ..Default::default()
                    });
                    let inds = |f: &Vec<f64>| f.iter().enumerate().map(|(i, &x)| { let mut t = TInd::new(vec![i as u8]); t.fit = x; t }).collect::<Vec<_>>();
                    let mut pop = Population::new(inds(&c.pops[0]));
                    let mut seen = vec![];
                    for k in 0..c.pops.len() {
                        if k > 0 {
                            pop.replace(&mut inds(&c.pops[k]));
                        }
                        a.prepare_for_next_population(&pop);
                        let ev = shared.drain();
                        let Some(Ev::Hook { cx, mx, .. }) = ev.first() else { return Err("hook not called".into()) };
                        ensure!(ev.len() == 1, "hook called {} times", ev.len());
                        seen.push((pop.stats().std(), f64::from_bits(*cx), f64::from_bits(*mx)));
                        let (mut x, mut m) = (f64::from_bits(*cx), f64::from_bits(*mx));
                        for h in c.hooks.iter().filter(|h| h.generation == k) {
                            x = h.cx.unwrap_or(x);
                            m = h.mx.unwrap_or(m);
                        }
                        let (r, size) = a.reproduction_parameters();
                        ensure!(r.crossover_rate == x && r.mutation_rate == m && size == 10, "reproduction parameters {} / {} / {size} instead of {x} / {m}", r.crossover_rate, r.mutation_rate);
                    }
                    if seen.iter().all(|s| s.0.is_finite()) {
                        check_rates(cx, mx, c.interval, &c.hooks, &seen)?;
                        obs.nontrivial_if(c.interval != 0 && (1..seen.len()).any(|g| g % c.interval == 0 && seen[g].0 > 0.0 && seen[g].0 < seen[0].0));
                        obs.label_if(seen.len() > 256 && c.interval != 0, "more than 256 generations");
                        obs.label_if(seen[0].0 == 0.0 && seen.len() > 1, "no initial spread");
                    } else if c.hooks.is_empty() {
                        for s in &seen {
                            ensure!(s.1 >= cx.0 - 1e-12 && s.1 <= cx.1 + 1e-12 && s.2 >= mx.0 - 1e-12 && s.2 <= mx.1 + 1e-12, "rates {s:?} outside {cx:?} / {mx:?}");
                        }
                        obs.label("overflowing spread");
                    }
                }
                Ok(())
            },
        }),
    ]
}

fn range_rates() -> BoxedStrategy<(f64, f64)> {
    (rate(), rate()).prop_map(|(a, b)| (a.min(b), a.max(b))).boxed()
}

// ---------------------------------------------------------------- C07 (runs)

fn check_fixed_rates_in_run(c: &EvoCase, obs: &mut Obs) -> CheckResult {
    let Some(t) = run_ok(c, obs)? else { return Ok(()) };
    let Alg::Ga { cx, mx, .. } = c.alg else { unreachable!() };
    let (mut n, mut muts, mut crosses) = (0u64, 0u64, 0u64);
    for w in t.snaps.windows(2) {
        for h in hook_log(&w[1]) {
            ensure!(h.1 == cx && h.2 == mx, "generation {} uses rates {} / {} instead of {cx} / {mx}", w[0].generation, h.1, h.2);
        }
        for e in evals(&w[1].events) {
            n += 1;
            muts += e.steps.contains(&b'm') as u64;
            let crossed = e.steps.contains(&b'c');
            crosses += crossed as u64;
            ensure!(!crossed || w[0].inds.len() > 1, "crossover in a population of one individual");
        }
    }
    if n > 0 {
        ensure!(stat::binom_ok(muts, n, mx), "{muts} of {n} offspring mutated at rate {mx}");
        // Crossover can fail to find a second parent, but never happens more often than its rate.
        let x = crosses as f64 / n as f64;
        ensure!(x <= cx || stat::binom_ok(crosses, n, cx), "{crosses} of {n} offspring crossed over at rate {cx}");
        ensure!(cx > 0.0 || crosses == 0, "crossover at rate 0");
    }
    obs.nontrivial_if(n >= 30);
    Ok(())
}

pub fn c07_long() -> Box<dyn Sub> {
    Box::new(Prop {
        name: "long_histories",
        rule: "the same on GA runs of 250 to 3000 generations, sometimes 66000; non-trivial: as above",
        quick: 320,
        thorough: 12_800,
        strat: |_| (long_case(false), elitism(5), rate(), rate()).prop_map(|(mut c, elitism, cx, mx)| {
            c.alg = Alg::Ga { elitism, cx, mx };
            c
        }).boxed(),
        check: check_fixed_rates_in_run,
    })
}

pub fn c07_runs() -> Box<dyn Sub> {
    Box::new(Prop {
        name: "rates_in_runs",
        rule: "whole GA runs: the hook sees the configured rates in every generation, and the number of mutated offspring (and of crossovers at rate 0 or with a single individual) fits them; non-trivial: at least 30 offspring bred",
        quick: 16_000,
        thorough: 640_000,
        strat: |_| (evo_case(false), elitism(20), rate(), rate()).prop_map(|(mut c, elitism, cx, mx)| {
            c.alg = Alg::Ga { elitism, cx, mx };
            c
        }).boxed(),
        check: check_fixed_rates_in_run,
    })
}

// ---------------------------------------------------------------- C06 (runs)

fn check_breeding_in_run(c: &EvoCase, obs: &mut Obs) -> CheckResult {
    let Some(t) = run_ok(c, obs)? else { return Ok(()) };
    for w in t.snaps.windows(2) {
        let e = evals(&w[1].events);
        let mut kept: HashMap<(&[u8], u64), bool> = HashMap::new();
        for x in &e {
            ensure!(matches!(&x.steps[..], b"i" | b"mi" | b"ci" | b"cmi"), "an offspring went through {:?} before its evaluation", String::from_utf8_lossy(&x.steps));
            let ok = x.valid && (c.overriding || f64::from_bits(x.fit) >= f64::from_bits(x.parent));
            *kept.entry((&x.genome[..], x.tag)).or_insert(false) |= ok;
            obs.nontrivial_if(!ok);
        }
        let old: HashMap<(Vec<u8>, u64), u64> = w[0].inds.iter().map(|i| (i.key(), i.fit.to_bits())).collect();
        for i in &w[1].inds {
            if old.get(&i.key()) == Some(&i.fit.to_bits()) {
                continue;
            }
            match kept.get(&(&i.genome[..], i.tag)) {
                Some(true) => {}
                Some(false) => return Err(format!("generation {}: the refused offspring {i:?} is in the next population", w[0].generation)),
                None => return Err(format!("generation {}: {i:?} is neither an old individual nor an offspring", w[0].generation)),
            }
        }
        check_refill(c, &w[0], &w[1])?;
    }
    Ok(())
}

pub fn c06_large() -> Box<dyn Sub> {
    large(false, check_breeding_in_run)
}

pub fn c06_long() -> Box<dyn Sub> {
    long(false, check_breeding_in_run)
}

pub fn c06_runs() -> Box<dyn Sub> {
    Box::new(Prop {
        name: "breeding_in_runs",
        rule: "whole runs: every individual of a next generation is an unchanged member of the current one or an offspring evaluated once after crossover?, mutation?, local search, valid and at least as fit as its fitter parent (or admitted by the overridden rule); non-trivial: an offspring was refused",
        quick: 30_000,
        thorough: 1_200_000,
        strat: |_| evo_case(true),
        check: check_breeding_in_run,
    })
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExtendCase {
    existing: usize,
    size: usize,
    genome: Vec<u8>,
    threads: usize,
    seed: u64,
    capacity: usize,
}

fn multiset<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

fn c20() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "initial_generation",
            rule: "runs of all three kinds of start (rarely of 70000 individuals), with duplicates and invalid individuals; what was created, evaluated and became generation 0; non-trivial: at least two initial individuals",
            quick: 240_000,
            thorough: 9_600_000,
            strat: |_| (evo_case(true), prop_oneof![20_000 => Just(None), 1 => (65_000usize..70_000).prop_map(Some)]).prop_map(|(mut c, huge)| { if let Some(n) = huge { c.size = n; c.cfg.alphabet = 200; c.cfg.fit = Fitness::Hash; } c.gens %= 2; if c.cfg.invalid_mod != 0 && c.seed % 4 == 0 { c.cfg.invalid_mod = 1 + (c.seed % 3) as u32; } c }).boxed(),
            check: |c, obs| {
                let t = run_case(c);
                let init: Vec<Ev> = t.snaps.first().map_or(t.tail.clone(), |s| s.events.clone());
                let e = evals(&init);
                let created: Vec<Vec<u8>> = init.iter().filter_map(|x| if let Ev::New(g) = x { Some(g.clone()) } else { None }).collect();
                let evaluated = multiset(e.iter().map(|x| x.genome.clone()).collect::<Vec<_>>());
                match &c.start {
                    Start::Random => {
                        ensure!(created.len() == c.size, "{} random individuals were created instead of {}", created.len(), c.size);
                        ensure!(evaluated == multiset(created), "the evaluated individuals are not the created ones");
                        ensure!(e.iter().all(|x| x.steps.is_empty()), "a random individual was changed before its evaluation");
                    }
                    Start::Individual(g) => {
                        ensure!(e.len() == c.size, "{} individuals were evaluated instead of {}", e.len(), c.size);
                        let plain: Vec<_> = e.iter().filter(|x| x.steps.is_empty()).collect();
                        ensure!(plain.len() == 1 && &plain[0].genome == g, "{} unmutated individuals in the initial population", plain.len());
                        for x in &e {
                            ensure!(x.steps.is_empty() || x.steps == b"m", "an initial individual went through {:?}", String::from_utf8_lossy(&x.steps));
                            let d = x.genome.iter().zip(g).filter(|(a, b)| a != b).count();
                            ensure!(x.genome.len() == g.len() && d <= 1, "initial individual {:?} is not one mutation away from {g:?}", x.genome);
                        }
                        ensure!(created.is_empty(), "random individuals were created");
                    }
                    Start::Population(v) => {
                        ensure!(evaluated == multiset(v.clone()), "{} individuals were evaluated instead of the {} given", e.len(), v.len());
                        ensure!(e.iter().all(|x| x.steps.is_empty()) && created.is_empty(), "a given individual was changed before its evaluation");
                    }
                }
                let mut want: Vec<Vec<u8>> = evaluated.into_iter().filter(|g| c.cfg.valid(g, 0)).collect();
                want.dedup();
                obs.nontrivial_if(e.len() >= 2);
                obs.label_if(e.iter().any(|x| !x.valid), "some invalid");
                match &t.outcome {
                    Outcome::Panicked(m) if t.snaps.is_empty() => {
                        ensure!(want.is_empty(), "the run did not start although {} initial individuals are valid: {m}", want.len());
                        obs.label("none valid");
                    }
                    Outcome::Panicked(m) => return Err(format!("the run ended with {m}")),
                    _ => {
                        ensure!(!want.is_empty(), "the run started although no initial individual is valid");
                        let got = multiset(t.snaps[0].inds.iter().map(|i| i.genome.clone()).collect());
                        ensure!(got == want, "generation 0 has {} individuals, the distinct valid initial ones are {}", got.len(), want.len());
                        ensure!(t.snaps[0].generation == 0 && t.snaps[0].stagnation == 0, "generation 0 reports {} / {}", t.snaps[0].generation, t.snaps[0].stagnation);
                        obs.label(match c.start { Start::Random => "random", Start::Individual(_) => "individual", _ => "population" });
                    }
                }
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "extend",
            rule: "extend_population and extend_population_with on a list that already holds individuals, sizes 0..600 (rarely 70000), on 1..4 threads; non-trivial: something appended to a non-empty list",
            quick: 160_000,
            thorough: 6_400_000,
            strat: |_| (0usize..20, prop_oneof![400 => 0usize..4, 400 => 0usize..40, 400 => 40usize..600, 5 => 600usize..9_000, 1 => 60_000usize..70_000], vec(0u8..4, 1..9), threads(), any::<u64>(), 0usize..50)
                .prop_map(|(existing, size, genome, threads, seed, capacity)| ExtendCase { existing, size, genome, threads, seed, capacity }).boxed(),
            check: |c, obs| {
                let shared = Shared::new(ModelCfg { len: c.genome.len(), ..plain_cfg() });
                let m = TM(shared.clone());
                let before: Vec<TInd> = (0..c.existing).map(|i| { let mut t = TInd::new(vec![i as u8; 2]); t.tag = 900 + i as u64; t }).collect();
                let list = |capacity| { let mut v = Vec::with_capacity(capacity); v.extend(before.iter().cloned()); v };
                let args = GenArgs { shared: shared.clone() };
                let mut v = list(c.capacity);
                in_pool(c.threads, c.seed, || m.extend_population(&mut v, c.size, &args));
                ensure!(v.len() == c.existing + c.size && v[..c.existing] == before[..], "extend_population by {} of {} gave {}", c.size, c.existing, v.len());
                let made = multiset(shared.drain().into_iter().filter_map(|e| if let Ev::New(g) = e { Some(g) } else { None }).collect::<Vec<_>>());
                ensure!(made == multiset(v[c.existing..].iter().map(|i| i.genome.clone()).collect()), "the appended individuals are not the {} generated ones", made.len());
                let mut v = list(c.capacity);
                let model = TInd::new(c.genome.clone());
                in_pool(c.threads, c.seed, || m.extend_population_with(&mut v, c.size, model));
                ensure!(v.len() == c.existing + c.size && v[..c.existing] == before[..], "extend_population_with by {} of {} gave {}", c.size, c.existing, v.len());
                let added = &v[c.existing..];
                let plain = added.iter().filter(|i| i.steps.is_empty()).count();
                ensure!(plain == c.size.min(1), "{plain} unmutated copies among {} appended", c.size);
                ensure!(added.iter().filter(|i| i.steps.is_empty()).all(|i| i.genome == c.genome), "the individual itself is not in the list");
                ensure!(added.iter().all(|i| i.steps.len() <= 1 && i.genome.iter().zip(&c.genome).filter(|(a, b)| a != b).count() <= 1), "an appended copy was mutated more than once");
                obs.nontrivial_if(c.existing > 0 && c.size > 0);
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "mutated_copies_are_independent",
            rule: "200 mutated copies of one individual of 60 genes must not all be alike; non-trivial: all",
            quick: 8_000,
            thorough: 320_000,
            strat: |_| (threads(), any::<u64>()).prop_map(|(threads, seed)| ExtendCase { existing: 0, size: 200, genome: vec![1; 60], threads, seed, capacity: 0 }).boxed(),
            check: |c, obs| {
                let shared = Shared::new(ModelCfg { len: 60, alphabet: 200, ..plain_cfg() });
                let m = TM(shared.clone());
                let mut v = vec![];
                in_pool(c.threads, c.seed, || m.extend_population_with(&mut v, c.size, TInd::new(c.genome.clone())));
                let n = v.iter().map(|i| i.genome.clone()).collect::<HashSet<_>>().len();
                ensure!(n > 150, "only {n} of {} mutated copies are different", c.size);
                let mut v = vec![];
                in_pool(c.threads, c.seed, || m.extend_population(&mut v, c.size, &GenArgs { shared: shared.clone() }));
                let n = v.iter().map(|i: &TInd| i.genome.clone()).collect::<HashSet<_>>().len();
                ensure!(n == 200, "only {n} of {} random individuals of 60 genes are different", c.size);
                obs.nontrivial = true;
                Ok(())
            },
        }),
    ]
}

// ---------------------------------------------------------------- C22

fn check_hooks_in_run(c: &EvoCase, obs: &mut Obs) -> CheckResult {
    let Some(t) = run_ok(c, obs)? else { return Ok(()) };
    let custom = matches!(c.alg, Alg::Custom { .. });
    let mut sel: Option<usize> = None;
    let (mut cur, aga) = match &c.alg {
        Alg::Ga { cx, mx, .. } => ((*cx, *mx), None),
        Alg::Aga { cx, mx, interval, .. } => ((cx.1, mx.0), Some((*cx, *mx, *interval))),
        Alg::Custom { cx, mx, .. } => ((*cx, *mx), None),
    };
    for e in &t.snaps[0].events {
        ensure!(matches!(e, Ev::New(_) | Ev::Eval(_)), "{e:?} before the first progress call");
    }
    for w in t.snaps.windows(2) {
        let g = w[0].generation;
        let want_fp: Fp = (g, w[0].inds.len(), ghash(&w[0].inds.last().unwrap().genome));
        let hooks = hook_log(&w[1]);
        if custom {
            let n = w[1].events.iter().filter(|e| matches!(e, Ev::AlgPrepare { .. })).count();
            ensure!(n == 1 && matches!(w[1].events[0], Ev::AlgPrepare { fp } if fp == want_fp), "generation {g}: the user-defined algorithm was prepared {n} times, or not first");
        } else {
            ensure!(hooks.len() == 1, "generation {g}: the hook was called {} times", hooks.len());
            ensure!(matches!(w[1].events[0], Ev::Hook { .. }), "generation {g}: {:?} came before the hook", w[1].events[0]);
            ensure!(hooks[0].0 == want_fp, "generation {g}: the hook was given another population");
            if let Some((cx, mx, interval)) = aga {
                if g != 0 && interval != 0 && g % interval == 0 {
                    let d = diversity(t.snaps[0].stats.std(), w[0].stats.std());
                    if d.is_finite() && t.snaps[0].stats.std().is_finite() {
                        cur = (lerp(cx, d), lerp(mx, 1.0 - d));
                    } else {
                        cur = (hooks[0].1, hooks[0].2);
                    }
                }
            }
            ensure!((hooks[0].1 - cur.0).abs() < 1e-9 && (hooks[0].2 - cur.1).abs() < 1e-9, "generation {g}: the hook saw rates {} / {} instead of {} / {}", hooks[0].1, hooks[0].2, cur.0, cur.1);
            for h in c.cfg.hooks.iter().filter(|h| h.generation == g) {
                cur = (h.cx.unwrap_or(cur.0), h.mx.unwrap_or(cur.1));
                if h.swap.is_some() {
                    sel = Some(g);
                }
            }
        }
        let e = evals(&w[1].events);
        let muts = e.iter().filter(|e| e.steps.contains(&b'm')).count() as u64;
        ensure!(e.is_empty() || stat::binom_ok(muts, e.len() as u64, cur.1), "generation {g}: {muts} of {} offspring mutated at rate {}", e.len(), cur.1);
        ensure!(cur.0 > 0.0 || e.iter().all(|e| !e.steps.contains(&b'c')), "generation {g}: crossover at rate 0");
        for x in &e {
            ensure!(matches!(&x.steps[..], b"i" | b"mi" | b"ci" | b"cmi"), "generation {g}: an offspring went through {:?}", String::from_utf8_lossy(&x.steps));
        }
        // The selection mechanism in force.
        let mut prepared = 0;
        let mut selections = 0u64;
        for ev in &w[1].events {
            match ev {
                Ev::Prepare { sel: s, fp } => {
                    prepared += 1;
                    ensure!(Some(*s) == sel && *fp == want_fp, "generation {g}: mechanism {s} was prepared with population {fp:?}, in force is {sel:?} with {want_fp:?}");
                    ensure!(selections == 0, "generation {g}: prepared after the first selection");
                }
                Ev::Select { sel: s, fp } => {
                    selections += 1;
                    ensure!(Some(*s) == sel && *fp == want_fp, "generation {g}: mechanism {s} selected from population {fp:?}, in force is {sel:?} with {want_fp:?}");
                }
                Ev::Survive { fp, parent, .. } => {
                    ensure!(*fp == want_fp, "generation {g}: survival was decided against population {fp:?} instead of {want_fp:?}");
                    ensure!(w[0].inds.iter().any(|i| i == parent && i.fit == parent.fit), "generation {g}: survival was decided against {parent:?}, not a member");
                }
                _ => {}
            }
        }
        if sel.is_some() {
            ensure!(prepared == 1, "generation {g}: the mechanism in force was prepared {prepared} times");
            ensure!(selections >= e.len() as u64, "generation {g}: {selections} selections for {} offspring", e.len());
            let crossings = e.iter().filter(|e| e.steps.contains(&b'c')).count() as u64;
            ensure!(selections >= e.len() as u64 + crossings, "generation {g}: {selections} selections for {} offspring, {crossings} with two parents", e.len());
            ensure!(selections <= 4 * e.len() as u64, "generation {g}: {selections} selections for {} offspring", e.len());
            obs.label("logging mechanism");
        }
        if c.overriding {
            let asked = w[1].events.iter().filter(|e| matches!(e, Ev::Survive { .. })).count();
            let valid = e.iter().filter(|e| e.valid).count();
            ensure!(asked >= valid, "generation {g}: survival was asked {asked} times for {valid} valid offspring");
            obs.label_if(asked > 0, "overridden survival rule");
            obs.nontrivial_if(asked > 0);
        }
        check_refill(c, &w[0], &w[1])?;
        obs.nontrivial_if(selections > 0);
    }
    Ok(())
}

fn c22() -> Vec<Box<dyn Sub>> {
    vec![Box::new(Prop {
        name: "hooks",
        rule: "runs whose hook changes rates and swaps in logging selection mechanisms at chosen generations, with the survival rule overridden in half of them, rarely of 100..700 generations or up to 1600 individuals; order and arguments of every call; non-trivial: a logging mechanism or the overridden survival rule was consulted",
        quick: 100_000,
        thorough: 4_000_000,
        strat: |_| (evo_case(true), prop_oneof![60 => Just((60usize, 12usize)), 1 => (1usize..5, 100usize..700), 1 => (60usize..1600, 1usize..5)])
            .prop_flat_map(|(c, scale)| (Just(c), Just(scale), vec((prop_oneof![3 => 0usize..8, 1 => 0..scale.1], prop::option::of(rate()), prop::option::of(rate()), prop::option::weighted(0.7, any_strategy())), 0..4), any::<bool>()))
            .prop_map(|(mut c, (size, gens), hooks, ov)| {
                if gens == 12 {
                    c.size = c.size.min(60);
                    c.gens = c.gens.min(12);
                } else {
                    c.size = size;
                    c.gens = gens;
                }
                c.overriding = ov;
                let mut used = HashSet::new();
                c.cfg.hooks = hooks.into_iter().filter(|h| used.insert(h.0))
                    .map(|(generation, cx, mx, swap)| Hook { generation, cx, mx, swap: swap.map(|s| match s { S::T(k) => S::T(k.min(20)), s => s }) }).collect();
                c
            }).boxed(),
        check: check_hooks_in_run,
    }),
    Box::new(Prop {
        name: "long_histories",
        rule: "the same on runs of 250 to 3000 generations with population sizes of 1..14, with up to eight hooks at any generation, rarely of 66000 generations; non-trivial: as above",
        quick: 320,
        thorough: 12_800,
        strat: |_| long_case(false)
            .prop_flat_map(|c| {
                let hooks = vec((prop_oneof![2 => 0usize..8, 3 => 0..c.gens], prop::option::of(rate()), prop::option::of(rate()), prop::option::weighted(0.7, any_strategy())), 0..8);
                (Just(c), hooks, any::<bool>())
            })
            .prop_map(|(mut c, hooks, ov)| {
                c.overriding = ov;
                let mut used = HashSet::new();
                c.cfg.hooks = hooks.into_iter().filter(|h| used.insert(h.0))
                    .map(|(generation, cx, mx, swap)| Hook { generation, cx, mx, swap: swap.map(|s| match s { S::T(k) => S::T(k.min(20)), s => s }) }).collect();
                c
            }).boxed(),
        check: check_hooks_in_run,
    })]
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReuseCase {
    earlier: Vec<EvoCase>,
    last: EvoCase,
}

pub fn same_trace(a: &Trace, b: &Trace) -> CheckResult {
    ensure!(a.snaps.len() == b.snaps.len(), "{} generations instead of {}", a.snaps.len(), b.snaps.len());
    for (x, y) in a.snaps.iter().zip(&b.snaps) {
        ensure!(
            x.generation == y.generation && x.stagnation == y.stagnation,
            "counters {} / {} instead of {} / {}", x.generation, x.stagnation, y.generation, y.stagnation
        );
        let f = |s: &Snap| s.inds.iter().map(|i| (i.key(), i.fit.to_bits())).collect::<Vec<_>>();
        ensure!(f(x) == f(y), "generation {} differs: {} instead of {}", x.generation, describe(x), describe(y));
        ensure!(x.events == y.events, "the events before generation {} differ", x.generation);
    }
    ensure!(a.tail == b.tail, "events at the end differ");
    let f = |o: &Outcome| match o {
        Outcome::Best(i) => format!("{:?} {}", i.key(), i.fit),
        Outcome::Pop { inds, generation, stagnation } => format!("{generation} {stagnation} {:?}", inds.iter().map(|i| i.key()).collect::<Vec<_>>()),
        Outcome::Panicked(_) => "panic".into(),
    };
    ensure!(f(&a.outcome) == f(&b.outcome), "outcome {} instead of {}", f(&a.outcome), f(&b.outcome));
    Ok(())
}

/// Runs a case on an existing instance, whose model keeps its own configuration and log.
fn c23() -> Vec<Box<dyn Sub>> {
    vec![Box::new(Prop {
        name: "reuse",
        rule: "one to three (rarely thirty or 280) earlier runs (other parameters, sizes, strategies, starts, early stops, rejected parameters, panicking evaluation) on the same instance, then one run compared event by event with the same run on a fresh instance, single worker thread; non-trivial: the compared run breeds at least one generation",
        quick: 100_000,
        thorough: 4_000_000,
        strat: |_| (cfg(), 0u8..3, rate_hooks(5), prop::bool::weighted(0.3)).prop_flat_map(|(mut cfg, kind, hooks, hooked)| {
                if cfg.unique { cfg.unique = false; cfg.fit = Fitness::Sum; }
                if hooked { cfg.hooks = hooks; }
                let one = move |cfg: ModelCfg| (sizes(), any::<bool>()).prop_flat_map(move |(size, _)| {
                    let cfg = cfg.clone();
                    (alg(size, true), alg(size, true), alg(size, true), Just(size), evo_strategy(), start(cfg.len, cfg.alphabet, size), Just(cfg), prop_oneof![1500 => 0usize..8, 5 => 8usize..300, 1 => 300usize..3000], any::<u64>())
                }).prop_map(move |(a1, a2, a3, size, strategy, start, cfg, gens, seed)| {
                    let fix = |a: Alg| match (kind, a) {
                        (0, Alg::Ga { elitism, cx, mx }) => Some(Alg::Ga { elitism, cx, mx }),
                        (1, Alg::Aga { elitism, cx, mx, interval }) => Some(Alg::Aga { elitism, cx, mx, interval }),
                        (2, Alg::Custom { cx, mx, sizes }) => Some(Alg::Custom { cx, mx, sizes }),
                        _ => None,
                    };
                    let alg = fix(a1).or(fix(a2)).or(fix(a3)).unwrap_or(match kind {
                        0 => Alg::Ga { elitism: 0.1, cx: 0.7, mx: 0.3 },
                        1 => Alg::Aga { elitism: 0.1, cx: (0.2, 0.9), mx: (0.1, 0.8), interval: 2 },
                        _ => Alg::Custom { cx: 0.6, mx: 0.4, sizes: vec![size, 3] },
                    });
                    EvoCase { alg, size: if gens < 8 { size.min(if seed % 64 == 0 { 400 } else { 60 }) } else { size.min(8) }, strategy, cfg, start, gens, threads: 1, seed, overriding: false }
                });
                (prop_oneof![900 => vec((one(cfg.clone()), 0u8..6), 1..4), 15 => vec((one(cfg.clone()), 0u8..6), 4..30), 1 => vec((one(cfg.clone()), 0u8..6), 60..280)], one(cfg))
            }).prop_map(|(earlier, last)| ReuseCase {
                earlier: earlier.into_iter().map(|(mut c, k)| {
                    // Some share parts of the configuration of the last run, or all but its start.
                    let share = c.seed >> 32;
                    if share & 1 != 0 { c.strategy = last.strategy.clone(); }
                    if share & 6 == 6 { c.alg = last.alg.clone(); c.size = last.size; }
                    if share & 24 == 24 { c.start = last.start.clone(); }
                    // Some earlier runs are rejected for invalid parameters.
                    if k == 0 {
                        match &mut c.alg {
                            Alg::Ga { elitism, .. } | Alg::Aga { elitism, .. } => *elitism = 1.5,
                            _ => {}
                        }
                    }
                    if k == 1 { c.cfg.panic_at = 1 + c.seed % 60; }
                    c
                }).collect(),
                last,
            }).boxed(),
        check: |c, obs| {
            // The model's panic switch is part of the shared state, so it is driven through the log object.
            let used = Shared::new(c.last.cfg.clone());
            let inst = Inst::<Switch>::new(&c.last, &used);
            for e in &c.earlier {
                SWITCH.with(|s| s.store(e.cfg.panic_at, Ordering::Relaxed));
                used.evals.store(0, Ordering::Relaxed);
                let t = inst.run(e, &used);
                obs.label_if(matches!(t.outcome, Outcome::Panicked(_)), "earlier run panicked");
            }
            SWITCH.with(|s| s.store(0, Ordering::Relaxed));
            used.evals.store(0, Ordering::Relaxed);
            used.drain();
            let again = inst.run(&c.last, &used);
            let fresh_shared = Shared::new(c.last.cfg.clone());
            let fresh = Inst::<Switch>::new(&c.last, &fresh_shared).run(&c.last, &fresh_shared);
            obs.nontrivial_if(fresh.snaps.len() > 1);
            obs.label(match c.last.alg { Alg::Ga { .. } => "GA", Alg::Aga { .. } => "AGA", _ => "custom algorithm" });
            same_trace(&again, &fresh).map_err(|m| format!("after {} earlier runs: {m}", c.earlier.len()))
        },
    })]
}

// A model whose planned panic can be switched between the runs of one instance.
thread_local! {
    static SWITCH: Arc<AtomicU64> = Arc::new(AtomicU64::new(0));
}
pub struct Switch(TM, Arc<AtomicU64>);
impl Tm for Switch {
    fn make(s: Arc<Shared>) -> Self {
        Switch(TM(s), SWITCH.with(|x| x.clone()))
    }
}
impl EvolutionModel for Switch {
    type Individual = TInd;
    type Rng = ERng;
    fn rng() -> ERng {
        new_rng()
    }
    fn crossover(&self, a: &TInd, b: &TInd, rng: &mut ERng) -> TInd {
        self.0.crossover(a, b, rng)
    }
    fn mutate(&self, i: &mut TInd, rng: &mut ERng) {
        self.0.mutate(i, rng)
    }
    fn improve(&self, i: &mut TInd) {
        self.0.improve(i)
    }
    fn evaluate(&self, i: &mut TInd) {
        let at = self.1.load(Ordering::Relaxed);
        if at != 0 && self.0 .0.evals.load(Ordering::Relaxed) + 1 >= at {
            panic!("planned panic in evaluation");
        }
        self.0.evaluate(i)
    }
    fn pre_generation(&mut self, p: &Population<TInd>, r: &mut ReproductionParameters<Self>) {
        let s = &self.0 .0;
        s.log(Ev::Hook { fp: fp(p), cx: r.crossover_rate.to_bits(), mx: r.mutation_rate.to_bits() });
        for h in s.cfg.hooks.iter().filter(|h| h.generation == p.generation()) {
            r.crossover_rate = h.cx.unwrap_or(r.crossover_rate);
            r.mutation_rate = h.mx.unwrap_or(r.mutation_rate);
        }
    }
}

// ---------------------------------------------------------------- C28

fn check_schedule(c: &EvoCase, obs: &mut Obs) -> CheckResult {
    let Some(t) = run_ok(c, obs)? else { return Ok(()) };
    ensure!(t.snaps.len() == c.gens + 1 && t.tail.is_empty(), "{} progress calls instead of {}", t.snaps.len(), c.gens + 1);
    for s in &t.snaps {
        check_population(c, s, &format!("generation {}", s.generation))?;
    }
    for w in t.snaps.windows(2) {
        check_refill(c, &w[0], &w[1])?;
        for e in evals(&w[1].events) {
            ensure!(matches!(&e.steps[..], b"i" | b"mi" | b"ci" | b"cmi"), "an offspring went through {:?} before its evaluation", String::from_utf8_lossy(&e.steps));
        }
    }
    obs.nontrivial_if(c.threads > 1 && c.gens > 0);
    obs.label(format!("{} threads", c.threads));
    Ok(())
}

fn c28() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "schedules",
            rule: "runs on 1..16 (rarely up to 130) worker threads with yields, spinning or sleeps inside crossover, mutation and evaluation; all population, elite, refill and counter guarantees, and exclusive generators; non-trivial: more than one thread and at least one generation",
            quick: 12_000,
            thorough: 480_000,
            strat: |_| (evo_case(true), many_threads(), 1u8..4).prop_map(|(mut c, threads, delay)| {
                c.threads = threads;
                c.cfg.delay = delay;
                if delay == 3 { c.gens = c.gens.min(8); }
                c
            }).boxed(),
            check: check_schedule,
        }),
        Box::new(Prop {
            name: "long_schedules",
            rule: "the same on runs of 250 to 3000 generations with population sizes of 1..14 on 2..8 worker threads with occasional yields; non-trivial: all",
            quick: 240,
            thorough: 9_600,
            strat: |_| (long_case(false), 2usize..9, any::<bool>()).prop_map(|(mut c, threads, delay)| {
                c.threads = threads;
                c.cfg.delay = delay as u8;
                c.gens = c.gens.min(3000);
                c
            }).boxed(),
            check: check_schedule,
        }),
        Box::new(Prop {
            name: "panic_reaches_caller",
            rule: "the n-th evaluation panics on 1..8 worker threads: the caller must see it, and no further progress call follows; non-trivial: the panic happens while breeding",
            quick: 6_000,
            thorough: 240_000,
            strat: |_| (evo_case(true), prop_oneof![Just(1usize), Just(2), Just(4), Just(8)], 0u8..3, 1u64..400).prop_map(|(mut c, threads, delay, at)| {
                c.threads = threads;
                c.cfg.delay = delay;
                c.cfg.panic_at = at;
                c
            }).boxed(),
            check: |c, obs| {
                let shared = Shared::new(c.cfg.clone());
                let t = Inst::<TM>::new(c, &shared).run(c, &shared);
                let evaluated = shared.evals.load(Ordering::Relaxed);
                if evaluated >= c.cfg.panic_at {
                    ensure!(
                        matches!(&t.outcome, Outcome::Panicked(m) if m.contains("planned panic")),
                        "evaluation {} panicked, but the run ended with {:?}", c.cfg.panic_at, t.outcome
                    );
                    obs.nontrivial_if(!t.snaps.is_empty());
                    obs.label_if(!t.snaps.is_empty(), "panic while breeding");
                } else {
                    obs.label("panic not reached");
                }
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "panic_in_any_operation",
            rule: "the n-th call of the crossover, mutation, local search, survival rule, hook, random individual, progress closure or selector panics on 1..8 worker threads: the caller sees that panic, and no further progress call follows; non-trivial: the panic happens",
            quick: 24_000,
            thorough: 960_000,
            strat: |_| (evo_case(true), prop_oneof![Just(1usize), Just(2), Just(4), Just(8)], 0usize..PLACES.len(), prop_oneof![3 => 1u64..10, 1 => 10u64..200], any::<u64>()).prop_map(|(mut c, threads, place, at, more)| {
                c.threads = threads;
                c.cfg.delay = (more % 3) as u8;
                match place {
                    3 => {}
                    4 => c.overriding = true,
                    6 => c.start = Start::Random,
                    8 => c.cfg.hooks = vec![Hook { generation: (more >> 8) as usize % 3, cx: None, mx: None, swap: Some(c.strategy.clone()) }],
                    _ => {}
                }
                (c, place, at)
            }).boxed(),
            check: |(c, place, at), obs| {
                let shared = Shared::new(c.cfg.clone());
                let calls = Arc::new(AtomicU64::new(0));
                let (n, place, at) = (calls.clone(), *place, *at);
                shared.set_probe(move |p| {
                    if p == place && n.fetch_add(1, Ordering::Relaxed) + 1 == at {
                        panic!("planned panic in the {}", PLACES[place]);
                    }
                });
                let t = if c.overriding { Inst::<TMO>::new(c, &shared).run(c, &shared) } else { Inst::<TM>::new(c, &shared).run(c, &shared) };
                let happened = calls.load(Ordering::Relaxed) >= at;
                if happened {
                    ensure!(
                        matches!(&t.outcome, Outcome::Panicked(m) if m.contains("planned panic")),
                        "call {at} of the {} panicked, but the run ended with {:?}", PLACES[place], t.outcome
                    );
                    obs.nontrivial_if(true);
                    obs.label(format!("panic in the {}", PLACES[place]));
                }
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "thread_count_invariance",
            rule: "with breeding that does not depend on chance (no crossover or mutation, unique tags off) every thread count gives the same populations; non-trivial: at least two initial individuals and one generation",
            quick: 4_000,
            thorough: 160_000,
            strat: |_| (evo_case(true)).prop_map(|mut c| {
                match &mut c.alg {
                    Alg::Ga { cx, mx, .. } => { *cx = 0.0; *mx = 0.0; }
                    Alg::Aga { cx, mx, .. } => { *cx = (0.0, 0.0); *mx = (0.0, 0.0); }
                    Alg::Custom { cx, mx, .. } => { *cx = 0.0; *mx = 0.0; }
                }
                // Always the fittest, so that the choice of parents does not depend on the generator.
                c.strategy = S::Boltz(1e-200, 1.0);
                c.cfg.fit = Fitness::Hash;
                c.cfg.unique = false;
                c.overriding = false;
                if matches!(c.start, Start::Random | Start::Individual(_)) {
                    let n = c.cfg.len;
                    let a = c.cfg.alphabet as u64;
                    c.start = Start::Population((0..c.size.min(40) as u64 + 2).map(|i| (0..n as u64).map(|j| (mix(c.seed ^ mix(i * 64 + j)) % a) as u8).collect()).collect());
                }
                c
            }).boxed(),
            check: |c, obs| {
                let mut first: Option<Vec<Vec<Vec<u8>>>> = None;
                for threads in [1, 2, 4, 8].into_iter().chain((c.seed % 32 == 0).then_some(20)) {
                    let c = EvoCase { threads, ..c.clone() };
                    let Some(t) = run_ok(&c, obs)? else { return Ok(()) };
                    let v: Vec<Vec<Vec<u8>>> = t.snaps.iter().map(|s| s.inds.iter().map(|i| i.genome.clone()).collect()).collect();
                    obs.nontrivial_if(v.len() > 1 && v[0].len() > 1);
                    match &first {
                        None => first = Some(v),
                        Some(f) => ensure!(*f == v, "{threads} threads give other populations than one"),
                    }
                }
                Ok(())
            },
        }),
    ]
}

#[allow(dead_code)]
fn _r(_: Range<usize>) {}

// ---------------------------------------------------------------- C30

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StreamCase {
    size: usize,
    /// Elites; the rest of the population is bred.
    elites: usize,
    adaptive: bool,
    from_individual: bool,
    crossover: bool,
    gens: usize,
    threads: usize,
    delay: bool,
    seed: u64,
}

#[derive(Clone, Debug, PartialEq)]
struct Tagged(u64);
impl Individual for Tagged {
    fn fitness(&self) -> f64 {
        (self.0 >> 12) as f64
    }
}
type TagLog = Arc<Mutex<Vec<(u64, u64)>>>;
impl RandomIndividual<TagLog> for Tagged {
    fn new_random<R: rand::Rng>(log: &TagLog, rng: &mut R) -> Self {
        let t = rng.next_u64();
        log.lock().unwrap().push((u64::MAX, t));
        Tagged(t)
    }
}
/// A model whose mutation draws a 64-bit tag and notes which generator it came from.
trait TagRng: rand::Rng + Send {
    fn make() -> Self;
    fn id(&self) -> u64;
}
impl TagRng for ERng {
    fn make() -> Self {
        new_rng()
    }
    fn id(&self) -> u64 {
        self.id
    }
}
impl TagRng for rand::rngs::SmallRng {
    fn make() -> Self {
        rand::rngs::SmallRng::seed_from_u64(42)
    }
    fn id(&self) -> u64 {
        0
    }
}
struct TagModel<R> {
    log: TagLog,
    busy: Arc<Mutex<std::collections::HashSet<u64>>>,
    shared: Arc<std::sync::atomic::AtomicBool>,
    delay: bool,
    r: std::marker::PhantomData<fn() -> R>,
}
impl<R: TagRng> EvolutionModel for TagModel<R> {
    type Individual = Tagged;
    type Rng = R;
    fn rng() -> R {
        R::make()
    }
    fn crossover(&self, a: &Tagged, b: &Tagged, rng: &mut R) -> Tagged {
        let t = rng.next_u64();
        self.log.lock().unwrap().push((rng.id(), t));
        Tagged(a.0 ^ b.0)
    }
    fn mutate(&self, i: &mut Tagged, rng: &mut R) {
        let id = rng.id();
        if !self.busy.lock().unwrap().insert(id) {
            self.shared.store(true, Ordering::Relaxed);
        }
        if self.delay {
            std::thread::yield_now();
        }
        i.0 = rng.next_u64();
        self.log.lock().unwrap().push((id, i.0));
        self.busy.lock().unwrap().remove(&id);
    }
    fn can_survive(&self, _: &Tagged, _: &Tagged, _: &Population<Tagged>, _: &mut R) -> bool {
        true
    }
    fn evaluate(&self, _: &mut Tagged) {}
}

/// Runs the case; returns the notes of the initial generation and those of breeding.
fn tagged_run<R: TagRng>(c: &StreamCase) -> Result<(Vec<(u64, u64)>, Vec<(u64, u64)>, bool), String> {
    let log: TagLog = Default::default();
    let shared = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let model = TagModel::<R> { log: log.clone(), busy: Default::default(), shared: shared.clone(), delay: c.delay, r: std::marker::PhantomData };
    let mut initial = None;
    let progress = |p: &Population<Tagged>| {
        if p.generation() == 0 {
            initial = Some(std::mem::take(&mut *log.lock().unwrap()));
        }
        p.generation() < c.gens
    };
    let elitism = c.elites as f64 / c.size as f64 + 1e-9;
    let rate = if c.crossover { 1.0 } else { 0.0 };
    catch(|| in_pool(c.threads, c.seed, || {
        if c.adaptive {
            let a = AdaptiveGeneticAlgorithm::build_evolution(model);
            let p = AdaptiveGeneticAlgorithmParameters { population_size: c.size, elitism_rate: elitism, crossover_rate_range: rate..rate, mutation_rate_range: 1.0..1.0, selection_strategy: SelectionStrategy::Rank, ..Default::default() };
            if c.from_individual { a.evolve_individual(Tagged(0), &p, progress); } else { a.run(&log, &p, progress); }
        } else {
            let a = GeneticAlgorithm::build_evolution(model);
            let p = GeneticAlgorithmParameters { population_size: c.size, elitism_rate: elitism, crossover_rate: rate, mutation_rate: 1.0, selection_strategy: SelectionStrategy::Rank };
            if c.from_individual { a.evolve_individual(Tagged(0), &p, progress); } else { a.run(&log, &p, progress); }
        }
    }))?;
    let bred = std::mem::take(&mut *log.lock().unwrap());
    Ok((initial.unwrap_or_default(), bred, shared.load(Ordering::Relaxed)))
}

fn stream_case(threads: BoxedStrategy<usize>) -> BoxedStrategy<StreamCase> {
    (prop_oneof![6 => 2usize..12, 3 => 12usize..100, 1 => 100usize..600], any::<u16>(), any::<[bool; 4]>(), 1usize..25, prop::option::weighted(0.04, 25usize..1600), threads, any::<u64>(), 0u8..3)
        .prop_map(|(size, e, f, gens, long, threads, seed, few)| StreamCase {
            gens: long.map_or(gens, |l| l.min(20_000 / size)),
            // Often only a single offspring per generation.
            elites: match few { 0 => size - 1, 1 => 0, _ => e as usize % size },
            size, adaptive: f[0], from_individual: f[1], crossover: f[2], delay: f[3], threads, seed })
        .boxed()
}

fn c30() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "streams",
            rule: "runs of 1..24 (rarely up to 1600) generations of 2..600 individuals on 1..16 (rarely up to 130) threads whose mutation draws a 64-bit tag: never more breeding generators than threads, none used by two breedings at once, no tag drawn twice in the run; non-trivial: at least two generations with breeding",
            quick: 6_000,
            thorough: 240_000,
            strat: |_| stream_case(many_threads()),
            check: |c, obs| {
                let (first, bred, shared) = tagged_run::<ERng>(c)?;
                ensure!(!shared, "two breedings used one generator at the same time");
                let ids: std::collections::HashSet<u64> = bred.iter().map(|x| x.0).collect();
                ensure!(ids.len() <= c.threads, "{} generators bred offspring on {} threads over {} generations", ids.len(), c.threads, c.gens);
                let mut seen = std::collections::HashSet::new();
                for (_, t) in first.iter().chain(&bred) {
                    ensure!(seen.insert(*t), "the random number {t} was drawn twice");
                }
                obs.nontrivial_if(c.gens > 1 && !bred.is_empty());
                obs.label(format!("{} threads", c.threads));
                obs.label_if(ids.len() > 1, "several generators");
                obs.label_if(c.elites + 1 == c.size, "one offspring");
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "same_seed",
            rule: "the same on one thread with a model whose generators all start from the same seed: no tag is drawn twice by breeding; non-trivial: at least two generations with breeding",
            quick: 8_000,
            thorough: 320_000,
            strat: |_| stream_case(Just(1usize).boxed()),
            check: |c, obs| {
                let (_, bred, _) = tagged_run::<rand::rngs::SmallRng>(c)?;
                let mut seen = std::collections::HashSet::new();
                for (k, (_, t)) in bred.iter().enumerate() {
                    ensure!(seen.insert(*t), "random number {k} of {} repeats an earlier one: the stream started again", bred.len());
                }
                obs.nontrivial_if(c.gens > 1 && !bred.is_empty());
                Ok(())
            },
        }),
    ]
}
