//! C32: runs and populations hold a bounded number of individuals and release each exactly once.
use crate::engine::*;
use crate::ensure;
use crate::evo::{in_pool, new_rng, rate, ERng};
use crate::sel::{any_strategy, S};
use proptest::collection::vec;
use proptest::prelude::*;
use rand::Rng as _;
use rusty_genes::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

pub fn subs(prop: &str) -> Option<(Vec<Box<dyn Sub>>, &'static [&'static str])> {
    match prop {
        "C32" => Some((c32(), &["memory is counted in individuals, not in bytes: four populations and a few individuals per worker thread are allowed at any time"])),
        _ => None,
    }
}

#[derive(Default)]
struct Census {
    live: HashSet<u64>,
    next: u64,
    most: usize,
    /// Released twice, or never created.
    bad: usize,
    steps: u64,
}

/// Knows all individuals that exist.
#[derive(Clone, Default)]
struct Register(Arc<Mutex<Census>>, u64);
impl Register {
    fn born(&self) -> u64 {
        let mut c = self.0.lock().unwrap();
        let id = c.next;
        c.next += 1;
        c.live.insert(id);
        c.most = c.most.max(c.live.len());
        id
    }
    fn gone(&self, id: u64) {
        let mut c = self.0.lock().unwrap();
        if !c.live.remove(&id) {
            c.bad += 1;
        }
    }
    fn live(&self) -> usize {
        self.0.lock().unwrap().live.len()
    }
    fn sound(&self, what: &str) -> CheckResult {
        let bad = self.0.lock().unwrap().bad;
        ensure!(bad == 0, "{what}: {bad} individuals were released more than once");
        Ok(())
    }
    /// Panics in the planned operation.
    fn step(&self) {
        if self.1 == 0 {
            return;
        }
        let mut c = self.0.lock().unwrap();
        c.steps += 1;
        let now = c.steps == self.1;
        drop(c);
        if now {
            panic!("planned panic");
        }
    }
}

struct Counted {
    v: u32,
    fit: f64,
    id: u64,
    reg: Register,
}
impl Counted {
    fn new(v: u32, reg: &Register) -> Self {
        Counted { v, fit: -1.0, id: reg.born(), reg: reg.clone() }
    }
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        self.reg.step();
        Counted { v: self.v, fit: self.fit, id: self.reg.born(), reg: self.reg.clone() }
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        self.reg.gone(self.id);
    }
}
impl PartialEq for Counted {
    fn eq(&self, o: &Self) -> bool {
        self.reg.step();
        self.v == o.v
    }
}
impl Individual for Counted {
    fn fitness(&self) -> f64 {
        self.fit
    }
}
impl RandomIndividual<Register> for Counted {
    fn new_random<R: rand::Rng>(reg: &Register, rng: &mut R) -> Self {
        reg.step();
        Counted::new(rng.gen_range(0..1000), reg)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    levels: u32,
    invalid: u32,
    survive: u8,
    range: u32,
    /// Mutation always finds a better individual.
    rising: bool,
}
struct Model(Cfg, Register);
impl EvolutionModel for Model {
    type Individual = Counted;
    type Rng = ERng;
    fn rng() -> ERng {
        new_rng()
    }
    fn crossover(&self, a: &Counted, b: &Counted, rng: &mut ERng) -> Counted {
        self.1.step();
        let mask: u32 = rng.gen();
        Counted::new((a.v & mask | b.v & !mask) % self.0.range, &self.1)
    }
    fn mutate(&self, i: &mut Counted, rng: &mut ERng) {
        self.1.step();
        // Replaces the whole individual.
        let v = if self.0.rising { i.v + 1 } else { rng.gen_range(0..self.0.range) };
        *i = Counted::new(v, &self.1);
    }
    fn evaluate(&self, i: &mut Counted) {
        self.1.step();
        let c = &self.0;
        i.fit = if c.invalid > 0 && i.v % c.invalid == 1 { f64::NAN } else if c.rising { i.v as f64 } else { (i.v.wrapping_mul(2_654_435_761) % c.levels) as f64 };
    }
    fn pre_generation(&mut self, _: &Population<Counted>, _: &mut ReproductionParameters<Self>) {
        self.1.step();
    }
    fn can_survive(&self, child: &Counted, parent: &Counted, _: &Population<Counted>, _: &mut ERng) -> bool {
        match self.0.survive {
            0 => true,
            1 => false,
            _ => child.fit >= parent.fit,
        }
    }
}

/// A user-defined algorithm with only the required operations.
struct Own(Model, ReproductionParameters<Model>, usize);
struct OwnParams(usize, SelectionStrategy);
impl EvolutionParameters for OwnParams {
    fn initial_population_size(&self) -> usize {
        self.0
    }
    fn max_population_size(&self) -> usize {
        self.0
    }
    fn validate(&self) {}
}
impl From<Model> for Own {
    fn from(m: Model) -> Self {
        Own(m, ReproductionParameters::default(), 1)
    }
}
impl EvolutionAlgorithm<Model> for Own {
    type Parameters = OwnParams;
    fn model(&self) -> &Model {
        &self.0
    }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<Model>, usize) {
        (&self.1, self.2)
    }
    fn configure(&mut self, p: &OwnParams) {
        self.2 = p.0;
        self.1.parent_selector = p.1.create_selector();
    }
    fn prepare_for_next_population(&mut self, p: &Population<Counted>) {
        self.0 .1.step();
        self.1.parent_selector.prepare(p);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum From_ {
    Random,
    One(u32),
    Many(Vec<u32>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    alg: u8,
    size: usize,
    elitism: f64,
    cx: f64,
    mx: f64,
    strategy: S,
    cfg: Cfg,
    start: From_,
    gens: usize,
    runs: usize,
    threads: usize,
    seed: u64,
    panic_at: u64,
}

fn case(panics: bool) -> BoxedStrategy<Case> {
    let size = prop_oneof![6 => 1usize..4, 8 => 2usize..16, 3 => 16usize..60, 1 => 60usize..400];
    let levels = prop_oneof![2 => Just(1u32), 3 => 2u32..6, 4 => 1000u32..1_000_000];
    let cfg = (levels, prop_oneof![3 => Just(0u32), 1 => 2u32..9], 0u8..6, prop_oneof![1 => 2u32..20, 3 => 20u32..1000, 2 => 100_000u32..1_000_000], prop::bool::weighted(0.25))
        .prop_map(|(levels, invalid, survive, range, rising)| Cfg { levels, invalid: if rising { 0 } else { invalid }, survive, range, rising });
    let start = prop_oneof![
        2 => Just(From_::Random),
        1 => (0u32..1000).prop_map(From_::One),
        3 => vec(0u32..1000, 1..30).prop_map(From_::Many),
    ];
    let elitism = prop_oneof![2 => Just(0.0), 2 => 0.0f64..0.5, 2 => 0.5f64..0.999, 1 => Just(0.01)];
    (
        (0u8..3, size, elitism, rate(), rate(), any_strategy()),
        (cfg, start, 0u32..1000, any::<u64>(), prop_oneof![4 => Just(1usize), 2 => Just(2), 2 => Just(4), 1 => Just(8)]),
        any::<u64>(),
    )
        .prop_map(move |((alg, size, elitism, cx, mx, strategy), (cfg, start, len, seed, threads), at)| {
            let budget = 400 + 6000 / (size + 4);
            let (gens, runs) = match len % 10 {
                0..=3 => (len as usize % 12, 1),
                4..=6 => (budget * (1 + len as usize) / 1000, 1),
                7 => (len as usize % 4, 2 + budget / 12),
                _ => (len as usize % 30, 1 + len as usize % 5),
            };
            let strategy = match strategy {
                S::T(k) => S::T(k.min(20)),
                s => s,
            };
            let gens = gens.min(12_000 / (size + 1) + 1);
            let (gens, runs, panic_at) = if panics { (gens.min(40), runs.min(3), 1 + at % (1 + (8 * size * (gens.min(12) + 1)) as u64)) } else { (gens, runs, 0) };
            Case { alg, size, elitism, cx, mx, strategy, cfg, start, gens, runs, threads, seed, panic_at }
        })
        .boxed()
}

/// Runs the case; returns the largest number of generations that a run went through.
fn run(c: &Case) -> Result<(usize, Register), String> {
    let reg = Register(Arc::default(), c.panic_at);
    let r = match c.alg {
        0 => {
            let p = GeneticAlgorithmParameters {
                population_size: c.size,
                elitism_rate: c.elitism,
                crossover_rate: c.cx,
                mutation_rate: c.mx,
                selection_strategy: c.strategy.strategy(),
            };
            drive(&GeneticAlgorithm::build_evolution(Model(c.cfg.clone(), reg.clone())), &p, c, &reg)
        }
        1 => {
            let p = AdaptiveGeneticAlgorithmParameters {
                population_size: c.size,
                elitism_rate: c.elitism,
                crossover_rate_range: c.cx.min(c.mx)..c.cx.max(c.mx),
                mutation_rate_range: 0.1..c.mx.max(0.1),
                selection_strategy: c.strategy.strategy(),
                parameter_adjustment_interval: c.seed as usize % 4,
            };
            drive(&AdaptiveGeneticAlgorithm::build_evolution(Model(c.cfg.clone(), reg.clone())), &p, c, &reg)
        }
        _ => {
            let p = OwnParams(c.size, c.strategy.strategy());
            drive(&Own::build_evolution(Model(c.cfg.clone(), reg.clone())), &p, c, &reg)
        }
    };
    Ok((r?, reg))
}

fn drive<A: EvolutionAlgorithm<Model>>(e: &Evolution<A, Model>, p: &A::Parameters, c: &Case, reg: &Register) -> Result<usize, String> {
    let start = match &c.start {
        From_::Many(v) => v.len(),
        _ => c.size,
    };
    let bound = 4 * start.max(c.size) + 8 * c.threads + 16;
    in_pool(c.threads, c.seed, || {
        let mut most_gens = 0;
        for run in 0..c.runs {
            let mut gens = 0;
            let mut problem = None;
            let mut progress = |p: &Population<Counted>| {
                reg.step();
                let live = reg.live();
                if (live > bound || live < p.len()) && problem.is_none() {
                    problem = Some(format!("{live} individuals exist at generation {} of a run with {start} at first and then up to {}", p.generation(), c.size));
                }
                gens += 1;
                gens <= c.gens && problem.is_none()
            };
            enum R {
                Best(#[allow(dead_code)] Counted),
                Pop(Population<Counted>),
            }
            let r = catch(|| match &c.start {
                From_::Random => R::Best(e.run(reg, p, &mut progress)),
                From_::One(v) => R::Best(e.evolve_individual(Counted::new(*v, reg), p, &mut progress)),
                From_::Many(v) => R::Pop(e.evolve_population(v.iter().map(|v| Counted::new(*v, reg)).collect(), p, &mut progress)),
            });
            if let Some(m) = problem {
                return Err(m);
            }
            most_gens = most_gens.max(gens);
            let kept = match &r {
                Ok(R::Best(_)) => 1,
                Ok(R::Pop(p)) => p.len(),
                Err(_) => 0,
            };
            let live = reg.live();
            ensure!(live >= kept && live <= kept + bound, "{live} individuals exist after run {run}, which returned {kept}");
            match r {
                Ok(R::Pop(p)) if c.seed & 1 == 0 => {
                    let v: Vec<Counted> = p.into();
                    drop(v);
                }
                Ok(R::Pop(p)) => drop(p.take_fittest()),
                Ok(r) => drop(r),
                Err(_) => {}
            }
            let live = reg.live();
            ensure!(live <= bound, "{live} individuals exist after the result of run {run} was dropped");
        }
        let most = reg.0.lock().unwrap().most;
        ensure!(most <= bound, "up to {most} individuals existed in runs with {start} at first and then up to {}", c.size);
        Ok(most_gens)
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    New(Vec<u8>),
    Try(Vec<u8>),
    Replace(Vec<u8>, bool),
    Fittest,
    List,
    Extend(usize),
    ExtendWith(usize, u8),
    Wrap(u8),
    Refill,
}

fn ops() -> BoxedStrategy<Vec<Op>> {
    let list = || prop_oneof![8 => vec(0u8..12, 1..12), 1 => vec(any::<u8>(), 1..300)];
    let op = prop_oneof![
        2 => list().prop_map(Op::New),
        1 => vec(0u8..12, 0..8).prop_map(Op::Try),
        5 => (list(), any::<bool>()).prop_map(|(v, b)| Op::Replace(v, b)),
        2 => Just(Op::Fittest),
        2 => Just(Op::List),
        1 => (0usize..40).prop_map(Op::Extend),
        1 => (0usize..40, any::<u8>()).prop_map(|(n, v)| Op::ExtendWith(n, v)),
        1 => any::<u8>().prop_map(Op::Wrap),
        3 => Just(Op::Refill),
    ];
    vec(op, 1..30).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Api {
    ops: Vec<Op>,
    levels: u8,
    threads: usize,
    seed: u64,
    panic_at: u64,
}

fn api(panics: bool) -> BoxedStrategy<Api> {
    (ops(), 1u8..9, 1usize..4, any::<u64>(), 1u64..150)
        .prop_map(move |(ops, levels, threads, seed, at)| Api { ops, levels, threads, seed, panic_at: if panics { at } else { 0 } })
        .boxed()
}

fn check_api(c: &Api, obs: &mut Obs) -> CheckResult {
    let reg = Register(Arc::default(), c.panic_at);
    let cfg = Cfg { levels: c.levels as u32, invalid: 0, survive: 2, range: 40, rising: false };
    let model = Model(cfg, reg.clone());
    let made = |v: &[u8]| -> Vec<Counted> {
        v.iter()
            .map(|v| {
                let mut i = Counted::new(*v as u32, &reg);
                i.fit = (v % c.levels) as f64;
                i
            })
            .collect()
    };
    let outcome = in_pool(c.threads, c.seed, || {
        catch(|| {
            let mut pop: Option<Population<Counted>> = None;
            let mut list: Vec<Counted> = vec![];
            let mut one: Option<Counted> = None;
            let mut replaced = 0;
            for (k, op) in c.ops.iter().enumerate() {
                match op {
                    Op::New(v) => pop = Some(Population::new(made(v))),
                    Op::Try(v) => match Population::try_from(made(v)) {
                        Ok(p) => pop = Some(p),
                        Err(back) => list = back,
                    },
                    Op::Replace(v, append) => {
                        if let Some(p) = &mut pop {
                            if !append {
                                list.clear();
                            }
                            list.extend(made(v));
                            p.replace(&mut list);
                            replaced += 1;
                        }
                    }
                    Op::Fittest => one = pop.take().map(|p| p.take_fittest()).or(one),
                    Op::List => {
                        if let Some(p) = pop.take() {
                            list = p.into();
                        }
                    }
                    Op::Extend(n) => model.extend_population(&mut list, *n, &reg),
                    Op::ExtendWith(n, v) => {
                        let i = Counted::new(*v as u32, &reg);
                        model.extend_population_with(&mut list, *n, i)
                    }
                    Op::Wrap(v) => {
                        let mut w: Vec<IndividualWrapper<Counted>> = made(&[*v, v / 2, v / 3]).into_iter().map(Into::into).collect();
                        w.sort();
                        w.truncate(2);
                        one = w.pop().map(|w| w.take());
                    }
                    Op::Refill => {
                        // What an algorithm does with the swapped-out individuals.
                        if let Some(p) = &mut pop {
                            list.clear();
                            list.extend(p.iter().cloned());
                            list.extend(made(&[k as u8]));
                            p.replace(&mut list);
                            replaced += 1;
                        }
                    }
                }
                let held = pop.as_ref().map_or(0, |p| p.len()) + list.len() + one.is_some() as usize;
                let live = reg.live();
                if live != held {
                    return Err(format!("{live} individuals exist instead of {held} after operation {k}: {op:?}"));
                }
            }
            Ok(replaced)
        })
    });
    let replaced = match outcome {
        Ok(r) => r?,
        Err(m) => {
            ensure!(m.contains("planned panic"), "an operation ended with {m}");
            obs.label("panic");
            usize::from(c.panic_at != 0)
        }
    };
    drop(model);
    ensure!(reg.live() == 0, "{} individuals are still there after everything was dropped", reg.live());
    reg.sound("populations")?;
    obs.nontrivial_if(if c.panic_at == 0 { replaced > 0 } else { reg.0.lock().unwrap().steps >= c.panic_at });
    Ok(())
}

fn c32() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "runs",
            rule: "one to dozens of runs of one instance (GA, AGA, user-defined; run, evolve_individual, evolve_population; up to thousands of generations) with individuals that register their creation and release: never more than four populations of them exist, each is released once, none remains once result and instance are dropped; non-trivial: at least 20 generations or runs",
            quick: 16_000,
            thorough: 640_000,
            strat: |_| case(false),
            check: |c, obs| {
                let (gens, reg) = match catch(|| run(c)) {
                    Ok(r) => r?,
                    Err(m) => return Err(format!("the run ended with {m}")),
                };
                ensure!(reg.live() == 0, "{} individuals are still there after everything was dropped", reg.live());
                reg.sound("runs")?;
                obs.nontrivial_if(gens >= 20 || c.runs >= 20);
                obs.label_if(gens > 200, "more than 200 generations");
                obs.label_if(c.runs > 20, "more than 20 runs of one instance");
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "runs_with_panic",
            rule: "as above, where one operation of the model or individual (creation, crossover, mutation, evaluation, comparison, copy, hook, progress) panics: afterwards nothing remains and nothing is released twice; non-trivial: the operation was reached",
            quick: 12_000,
            thorough: 480_000,
            strat: |_| case(true),
            check: |c, obs| {
                let (_, reg) = match catch(|| run(c)) {
                    Ok(r) => r?,
                    Err(m) => return Err(format!("the run ended with {m}")),
                };
                ensure!(reg.live() == 0, "{} individuals are still there after everything was dropped", reg.live());
                reg.sound("runs that panic")?;
                obs.nontrivial_if(reg.0.lock().unwrap().steps >= c.panic_at);
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "populations",
            rule: "sequences of Population::new, try_from, replace, take_fittest, into a list, extend_population, extend_population_with and wrapping: after each operation exactly the individuals in the population, the lists and the variables exist; non-trivial: a population was replaced",
            quick: 60_000,
            thorough: 2_400_000,
            strat: |_| api(false),
            check: check_api,
        }),
        Box::new(Prop {
            name: "populations_with_panic",
            rule: "as above, where a comparison, copy or model operation panics: afterwards nothing remains and nothing is released twice; non-trivial: the operation was reached",
            quick: 30_000,
            thorough: 1_200_000,
            strat: |_| api(true),
            check: check_api,
        }),
    ]
}
