//! C06 and C07: the breeding step.
use crate::engine::*;
use crate::ensure;
use crate::evo;
use crate::gen::{aged, TRng};
use crate::sel::{any_strategy, S};
use crate::stat;
use proptest::collection::vec;
use proptest::prelude::*;
use rand::{rngs::SmallRng, Rng as _, SeedableRng as _};
use rusty_genes::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub fn subs(prop: &str) -> Option<(Vec<Box<dyn Sub>>, &'static [&'static str])> {
    let v: Vec<Box<dyn Sub>> = match prop {
        "C06" => c06(),
        "C07" => c07(),
        _ => return None,
    };
    Some((
        v,
        &[
            "individuals of a population have pairwise different genomes",
            "frequencies are compared by a Chernoff bound whose false-alarm probability is below 2e-15 per comparison",
        ],
    ))
}

// ---------------------------------------------------------------- recording model

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BInd {
    pub genome: Vec<u8>,
    pub fit: f64,
    pub flag: bool,
    /// Everything done to the individual since it was created or copied from the population.
    pub trail: Vec<u8>,
}
impl PartialEq for BInd {
    fn eq(&self, o: &Self) -> bool {
        self.genome == o.genome
    }
}
impl Individual for BInd {
    fn fitness(&self) -> f64 {
        self.fit
    }
    fn is_valid(&self) -> bool {
        self.flag && self.fit.is_finite()
    }
}
impl BInd {
    pub fn same(&self, o: &Self) -> bool {
        self.genome == o.genome && self.fit.to_bits() == o.fit.to_bits() && self.flag == o.flag && self.trail == o.trail
    }
}

#[derive(Clone, Debug)]
pub enum BEv {
    Cross(BInd, BInd, BInd),
    Mut(BInd, BInd),
    Imp(BInd, BInd),
    Eval(BInd, BInd),
    Survive(BInd, BInd, usize, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BCfg {
    /// Number of different fitness levels assigned by evaluation, around `offset`.
    pub levels: u32,
    pub offset: f64,
    /// 0: all valid; k: every k-th genome hash evaluates to NaN / inf / -inf / flagged invalid.
    pub invalid: u32,
    pub improve: bool,
    /// Survival rule of the overriding model: always, never, by hash, by the generator, against the rule.
    pub survive: u8,
}
impl BCfg {
    pub fn eval(&self, g: &[u8]) -> (f64, bool) {
        let h = mix(fnv(g));
        let fit = self.offset + (h % self.levels as u64) as f64;
        if self.invalid != 0 && (h >> 9) % self.invalid as u64 == 0 {
            return match (h >> 30) % 4 {
                0 => (f64::NAN, true),
                1 => (f64::INFINITY, true),
                2 => (f64::NEG_INFINITY, true),
                _ => (fit + 50.0, false),
            };
        }
        (fit, true)
    }
}

pub struct BModel {
    pub cfg: BCfg,
    pub log: Option<Mutex<Vec<BEv>>>,
}
impl BModel {
    fn log(&self, e: impl FnOnce() -> BEv) {
        if let Some(l) = &self.log {
            l.lock().unwrap().push(e());
        }
    }
    fn cross(&self, a: &BInd, b: &BInd, rng: &mut TRng) -> BInd {
        let genome = a.genome.iter().zip(&b.genome).map(|(x, y)| if rng.gen() { *x } else { *y }).collect();
        let c = BInd { genome, fit: -1e9, flag: true, trail: vec![b'c'] };
        self.log(|| BEv::Cross(a.clone(), b.clone(), c.clone()));
        c
    }
    fn mutation(&self, i: &mut BInd, rng: &mut TRng) {
        let before = i.clone();
        let k = rng.gen_range(0..i.genome.len());
        i.genome[k] = rng.gen_range(0..8);
        i.trail.push(b'm');
        self.log(|| BEv::Mut(before, i.clone()));
    }
    fn search(&self, i: &mut BInd) {
        let before = i.clone();
        if self.cfg.improve {
            i.genome[0] = 7;
        }
        i.trail.push(b'i');
        self.log(|| BEv::Imp(before, i.clone()));
    }
    fn assess(&self, i: &mut BInd) {
        let before = i.clone();
        (i.fit, i.flag) = self.cfg.eval(&i.genome);
        i.trail.push(b'e');
        self.log(|| BEv::Eval(before, i.clone()));
    }
}

macro_rules! breeding_model {
    ($name:ident, { $($extra:tt)* }) => {
        pub struct $name(pub BModel);
        impl EvolutionModel for $name {
            type Individual = BInd;
            type Rng = TRng;
            fn rng() -> TRng {
                TRng::new(7)
            }
            fn crossover(&self, a: &BInd, b: &BInd, rng: &mut TRng) -> BInd {
                self.0.cross(a, b, rng)
            }
            fn mutate(&self, i: &mut BInd, rng: &mut TRng) {
                self.0.mutation(i, rng)
            }
            fn improve(&self, i: &mut BInd) {
                self.0.search(i)
            }
            fn evaluate(&self, i: &mut BInd) {
                self.0.assess(i)
            }
            $($extra)*
        }
        impl BreedModel for $name {
            fn make(m: BModel) -> Self {
                $name(m)
            }
            fn inner(&self) -> &BModel {
                &self.0
            }
        }
    };
}
pub trait BreedModel: EvolutionModel<Individual = BInd, Rng = TRng> + Sized {
    fn make(m: BModel) -> Self;
    fn inner(&self) -> &BModel;
}
breeding_model!(PlainBreed, {});
breeding_model!(OverBreed, {
    fn can_survive(&self, child: &BInd, parent: &BInd, p: &Population<BInd>, rng: &mut TRng) -> bool {
        let ok = match self.0.cfg.survive {
            0 => true,
            1 => false,
            2 => mix(fnv(&child.genome)) % 3 != 0,
            3 => rng.gen(),
            _ => child.fit < parent.fit,
        };
        self.0.log(|| BEv::Survive(child.clone(), parent.clone(), p as *const _ as usize, ok));
        ok
    }
});

/// Records what it returns.
pub struct RecSel {
    inner: Inner,
    picks: Arc<Mutex<Vec<usize>>>,
}
enum Inner {
    Script(Vec<usize>, AtomicUsize),
    Uniform,
    Cyclic(AtomicUsize),
    Lib(Box<dyn SelectionMechanism<BInd, TRng> + Send>),
}
struct Shareable<T>(T);
// The library's mechanisms are plain data.
unsafe impl<T> Send for Shareable<T> {}
impl SelectionMechanism<BInd, TRng> for Shareable<Box<dyn SelectionMechanism<BInd, TRng>>> {
    fn prepare(&mut self, p: &Population<BInd>) {
        self.0.prepare(p)
    }
    fn select<'a>(&self, p: &'a Population<BInd>, rng: &mut TRng) -> (usize, &'a BInd) {
        self.0.select(p, rng)
    }
}
impl SelectionMechanism<BInd, TRng> for RecSel {
    fn prepare(&mut self, p: &Population<BInd>) {
        if let Inner::Lib(l) = &mut self.inner {
            l.prepare(p);
        }
    }
    fn select<'a>(&self, p: &'a Population<BInd>, rng: &mut TRng) -> (usize, &'a BInd) {
        let i = match &self.inner {
            Inner::Script(v, k) => v[k.fetch_add(1, Ordering::Relaxed) % v.len()] % p.len(),
            Inner::Uniform => rng.gen_range(0..p.len()),
            Inner::Cyclic(k) => k.fetch_add(1, Ordering::Relaxed) % p.len(),
            Inner::Lib(l) => l.select(p, rng).0,
        };
        self.picks.lock().unwrap().push(i);
        (i, &p[i])
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sel {
    Script(Vec<usize>),
    Uniform,
    Cyclic,
    Lib(S),
}
impl Sel {
    pub fn make(&self, p: &Population<BInd>) -> (RecSel, Arc<Mutex<Vec<usize>>>) {
        let picks = Arc::new(Mutex::new(vec![]));
        let inner = match self {
            Sel::Script(v) => Inner::Script(v.clone(), AtomicUsize::new(0)),
            Sel::Uniform => Inner::Uniform,
            Sel::Cyclic => Inner::Cyclic(AtomicUsize::new(0)),
            Sel::Lib(s) => Inner::Lib(Box::new(Shareable(s.strategy().create_selector()))),
        };
        let mut s = RecSel { inner, picks: picks.clone() };
        s.prepare(p);
        (s, picks)
    }
}

/// Distinct individuals with the given fitness values.
pub fn members(fit: &[f64], len: usize) -> Vec<BInd> {
    fit.iter()
        .enumerate()
        .map(|(k, &fit)| {
            let mut genome = vec![(k % 7) as u8, (k / 7 % 7) as u8, (k / 49 % 7) as u8];
            genome.resize(len.max(3), 1);
            BInd { genome, fit, flag: true, trail: vec![] }
        })
        .collect()
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BreedCase {
    pub fits: Vec<f64>,
    pub len: usize,
    pub cfg: BCfg,
    pub sel: Sel,
    pub cx: f64,
    pub mx: f64,
    pub over: bool,
    pub seed: u64,
    pub script: Vec<u64>,
    pub times: usize,
}

pub fn bcfg() -> BoxedStrategy<BCfg> {
    (
        prop_oneof![Just(1u32), 2u32..8, Just(1000u32)],
        prop_oneof![4 => Just(0.0), 1 => Just(-2.0), 1 => Just(-100.0), 1 => Just(100.0)],
        prop_oneof![3 => Just(0u32), 2 => 2u32..8, 1 => Just(1u32)],
        any::<bool>(),
        0u8..5,
    )
        .prop_map(|(levels, offset, invalid, improve, survive)| BCfg { levels, offset, invalid, improve, survive })
        .boxed()
}

pub fn breed_case() -> BoxedStrategy<BreedCase> {
    let fits = prop_oneof![
        2 => vec((0u8..4).prop_map(f64::from), 1..4),
        4 => vec((-3i32..8).prop_map(f64::from), 1..30),
        1 => vec(-10.0f64..10.0, 1..200),
        1 => (1usize..12).prop_map(|n| vec![2.0; n]),
    ];
    let fits = prop_oneof![
        400 => fits,
        1 => (200usize..4000, any::<u64>()).prop_map(|(n, seed)| (0..n as u64).map(|i| (mix(seed ^ i) % 3000) as f64 / 7.0).collect::<Vec<f64>>()),
    ];
    let sel = prop_oneof![
        4 => vec(0usize..200, 1..9).prop_map(Sel::Script),
        2 => Just(Sel::Uniform),
        1 => Just(Sel::Cyclic),
        2 => any_strategy().prop_map(|s| Sel::Lib(match s { S::T(k) => S::T(k.min(20)), s => s })),
    ];
    (fits, 3usize..9, bcfg(), sel, evo::rate(), evo::rate(), any::<bool>(), any::<u64>(), vec(prop_oneof![Just(0u64), Just(u64::MAX), any::<u64>()], 0..5))
        .prop_map(|(fits, len, cfg, sel, cx, mx, over, seed, script)| BreedCase { fits, len, cfg, sel, cx, mx, over, seed, script, times: 8 })
        .boxed()
}

fn check_breed<M: BreedModel>(c: &BreedCase, obs: &mut Obs) -> CheckResult {
    let pop = aged(members(&c.fits, c.len), c.seed);
    let before = pop.to_vec();
    let (sel, picks) = c.sel.make(&pop);
    let params = ReproductionParameters { crossover_rate: c.cx, mutation_rate: c.mx, parent_selector: Box::new(sel) };
    let model = M::make(BModel { cfg: c.cfg.clone(), log: Some(Mutex::new(vec![])) });
    let mut rng = TRng::scripted(c.seed, c.script.clone());
    for _ in 0..c.times {
        picks.lock().unwrap().clear();
        let result = model.breed(&pop, &params, &mut rng);
        let log = std::mem::take(&mut *model.inner().log.as_ref().unwrap().lock().unwrap());
        let picks = picks.lock().unwrap().clone();
        ensure!(pop.len() == before.len() && pop.iter().zip(&before).all(|(a, b)| a.same(b)), "breeding changed the population");
        ensure!(!picks.is_empty(), "no parent was selected");
        // Who the parents are.
        let picked = |i: &BInd| picks.iter().any(|&k| pop[k].same(i));
        let mut steps = log.iter().peekable();
        let mut seen = String::new();
        let (parents, mut current): (Vec<BInd>, BInd) = match steps.peek() {
            Some(BEv::Cross(a, b, child)) => {
                steps.next();
                ensure!(picked(a) && picked(b), "crossover of {a:?} and {b:?}, the selector returned {:?}", picks.iter().map(|&k| &pop[k]).collect::<Vec<_>>());
                ensure!(a != b, "crossover of {a:?} with itself");
                ensure!(c.cx > 0.0, "crossover at rate 0");
                ensure!(pop.len() > 1, "crossover in a population of one");
                seen.push('c');
                (vec![a.clone(), b.clone()], child.clone())
            }
            Some(BEv::Mut(x, _)) | Some(BEv::Imp(x, _)) | Some(BEv::Eval(x, _)) => {
                ensure!(picked(x), "the offspring started as {x:?}, not as a copy of a selected parent");
                (vec![x.clone()], x.clone())
            }
            other => return Err(format!("breeding began with {other:?}")),
        };
        for e in steps {
            let (from, to, k) = match e {
                BEv::Mut(x, y) => (x, y, 'm'),
                BEv::Imp(x, y) => (x, y, 'i'),
                BEv::Eval(x, y) => (x, y, 'e'),
                BEv::Survive(..) => continue,
                BEv::Cross(..) => return Err("a second crossover".into()),
            };
            ensure!(from.same(&current), "step '{k}' after '{seen}' was applied to {from:?} instead of {current:?}");
            current = to.clone();
            seen.push(k);
        }
        ensure!(matches!(&seen[..], "ie" | "mie" | "cie" | "cmie"), "breeding steps were '{seen}'");
        ensure!(c.mx > 0.0 || !seen.contains('m'), "mutation at rate 0");
        ensure!(c.mx < 1.0 || seen.contains('m'), "no mutation at rate 1");
        // Keep-best.
        let best = parents.iter().map(|p| p.fit).fold(f64::NEG_INFINITY, f64::max);
        let asked: Vec<_> = log.iter().filter_map(|e| if let BEv::Survive(x, y, p, ok) = e { Some((x, y, *p, *ok)) } else { None }).collect();
        for (x, y, p, _) in &asked {
            ensure!(x.same(&current), "survival was asked for {x:?}, the offspring is {current:?}");
            ensure!(parents.iter().any(|q| q.same(y)) && y.fit == best, "survival was decided against {y:?}, the parents are {parents:?}");
            ensure!(*p == &pop as *const _ as usize, "survival was decided with another population");
        }
        let valid = current.is_valid();
        let survives = if c.over {
            ensure!(!valid || asked.len() == 1, "the survival rule was asked {} times", asked.len());
            valid && asked[0].3
        } else {
            valid && current.fit >= best
        };
        if survives {
            ensure!(result.same(&current), "{result:?} was returned instead of the surviving offspring {current:?} (parents {parents:?})");
            obs.label("offspring kept");
        } else {
            ensure!(
                parents.iter().any(|p| p.fit == best && p.same(&result)),
                "{result:?} was returned instead of the fitter of the parents {parents:?} (offspring {current:?})"
            );
            obs.label(if valid { "parent kept" } else { "parent kept for an invalid offspring" });
        }
        ensure!(result.is_valid(), "an invalid individual was returned");
        obs.label(format!("steps {seen}"));
        obs.label_if(parents.len() == 2 && parents[0].fit < parents[1].fit, "second parent fitter");
        obs.nontrivial_if(parents.len() == 2 || seen.contains('m'));
    }
    Ok(())
}

fn c06() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "breed_direct",
            rule: "eight breedings from populations of 1..200 (sometimes 4000; ties, single individual) with scripted, uniform, cyclic and library selectors, any rates, invalid and worse offspring, default and overridden survival; the recorded calls decide; non-trivial: a crossover or a mutation happened",
            quick: 600_000,
            thorough: 24_000_000,
            strat: |_| breed_case(),
            check: |c, obs| if c.over { check_breed::<OverBreed>(c, obs) } else { check_breed::<PlainBreed>(c, obs) },
        }),
        evo::c06_runs(),
        evo::c06_large(),
        evo::c06_long(),
    ]
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RateCase {
    n: usize,
    cx: f64,
    mx: f64,
    sel: Sel,
    seed: u64,
    times: u64,
    over: bool,
    cfg: BCfg,
}

fn check_joint(cells: &[[u64; 2]; 2], cx: f64, mx: f64, what: &str) -> CheckResult {
    let flat = [cells[0][0], cells[0][1], cells[1][0], cells[1][1]];
    let n: u64 = flat.iter().sum();
    if n == 0 {
        return Ok(());
    }
    let law = [(1.0 - cx) * (1.0 - mx), (1.0 - cx) * mx, cx * (1.0 - mx), cx * mx];
    for (k, (&c, &p)) in flat.iter().zip(&law).enumerate() {
        let name = ["neither", "mutation only", "crossover only", "both"][k];
        ensure!(stat::binom_ok(c, n, p), "{what}: {name} for {c} of {n} offspring, expected share {p:.4} (crossover rate {cx}, mutation rate {mx})");
    }
    let (x, m) = (flat[2] + flat[3], flat[1] + flat[3]);
    ensure!(stat::binom_ok(x, n, cx), "{what}: {x} of {n} offspring crossed over at rate {cx}");
    ensure!(stat::binom_ok(m, n, mx), "{what}: {m} of {n} offspring mutated at rate {mx}");
    Ok(())
}

fn fine_rate() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => Just(0.0),
        2 => Just(1.0),
        6 => 0.0f64..=1.0,
        2 => (0u32..=20).prop_map(|k| k as f64 / 20.0),
        1 => 0.0f64..0.02,
        1 => 0.98f64..1.0,
    ]
    .boxed()
}

fn rates_of<M: BreedModel>(c: &RateCase, obs: &mut Obs) -> CheckResult {
    let fits: Vec<f64> = (0..c.n).map(|i| (mix(c.seed ^ i as u64) % 5) as f64).collect();
    let pop = aged(members(&fits, 4), c.seed);
    let (sel, picks) = c.sel.make(&pop);
    let params = ReproductionParameters { crossover_rate: c.cx, mutation_rate: c.mx, parent_selector: Box::new(sel) };
    let model = M::make(BModel { cfg: c.cfg.clone(), log: Some(Mutex::new(vec![])) });
    let mut rng = TRng::new(c.seed);
    rng.max_draws = u64::MAX;
    let mut cells = [[0u64; 2]; 2];
    for _ in 0..c.times {
        model.breed(&pop, &params, &mut rng);
        let log = std::mem::take(&mut *model.inner().log.as_ref().unwrap().lock().unwrap());
        let x = log.iter().filter(|e| matches!(e, BEv::Cross(..))).count();
        let m = log.iter().filter(|e| matches!(e, BEv::Mut(..))).count();
        ensure!(x < 2 && m < 2, "{x} crossovers and {m} mutations in one breeding");
        cells[x][m] += 1;
        picks.lock().unwrap().clear();
    }
    let crossed = cells[1][0] + cells[1][1];
    obs.nontrivial_if(c.n > 1 && c.cx > 0.0 && (c.cx < 1.0 || c.mx < 1.0));
    obs.count("breedings", c.times);
    if c.n == 1 {
        ensure!(crossed == 0, "{crossed} crossovers in a population of one individual");
        return check_joint(&cells, 0.0, c.mx, "population of one");
    }
    match c.sel {
        // Every candidate differs from the one before.
        Sel::Cyclic => check_joint(&cells, c.cx, c.mx, "different parents offered"),
        _ => {
            // A uniform selector offers the same parent again with probability 1/n.
            let (n, x) = (c.times as f64, crossed as f64);
            let least = c.cx * (1.0 - 1.0 / c.n as f64);
            ensure!(x <= n * c.cx || stat::binom_ok(crossed, c.times, c.cx), "{crossed} of {n} offspring crossed over at rate {}", c.cx);
            ensure!(x >= n * least || stat::binom_ok(crossed, c.times, least), "only {crossed} of {n} offspring crossed over at rate {} with {} individuals", c.cx, c.n);
            let m = cells[0][1] + cells[1][1];
            ensure!(stat::binom_ok(m, c.times, c.mx), "{m} of {n} offspring mutated at rate {}", c.mx);
            for k in 0..2 {
                let t = cells[k][0] + cells[k][1];
                ensure!(t == 0 || stat::binom_ok(cells[k][1], t, c.mx), "{} of {t} offspring {} crossover mutated at rate {}", cells[k][1], if k == 1 { "with" } else { "without" }, c.mx);
            }
            Ok(())
        }
    }
}

fn c07() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "rates_direct",
            rule: "4000 breedings at generated rates with a selector that always offers different parents (all four combinations of crossover and mutation against the product law) or a uniform one, populations of 1..60, valid and invalid offspring; non-trivial: more than one individual and a rate that leaves both outcomes open",
            quick: 12_000,
            thorough: 480_000,
            strat: |t| (prop_oneof![1 => Just(1usize), 2 => 2usize..5, 3 => 2usize..60], fine_rate(), fine_rate(), prop_oneof![3 => Just(Sel::Cyclic), 1 => Just(Sel::Uniform)], any::<u64>(), any::<bool>(), bcfg())
                .prop_map(move |(n, cx, mx, sel, seed, over, cfg)| RateCase { n, cx, mx, sel, seed, over, cfg, times: if t == Tier::Quick { 4000 } else { 20_000 } }).boxed(),
            check: |c, obs| if c.over { rates_of::<OverBreed>(c, obs) } else { rates_of::<PlainBreed>(c, obs) },
        }),
        Box::new(Prop {
            name: "ga_run_rates",
            rule: "GA runs of 10..60 generations whose selector always offers different parents: all offspring of every third of the run against the product law of the configured rates; non-trivial: a rate that leaves both outcomes open",
            quick: 9_600,
            thorough: 384_000,
            strat: |_| (2usize..80, 10usize..60, fine_rate(), fine_rate(), any::<u64>(), 0.0f64..0.5, prop::bool::weighted(0.2)).prop_map(|(n, gens, cx, mx, seed, elitism, all)| RunRates { n, gens, cx, mx, seed, elitism: if all { 0.0 } else { elitism } }).boxed(),
            check: |c, obs| {
                let shared: Arc<Mutex<RunLog>> = Default::default();
                let e = GeneticAlgorithm::build_evolution(RunModel { log: shared.clone() });
                let p = GeneticAlgorithmParameters { population_size: c.n, elitism_rate: c.elitism, crossover_rate: c.cx, mutation_rate: c.mx, selection_strategy: SelectionStrategy::Rank };
                let inds = (0..c.n.max(2)).map(|i| RInd { id: i as u64, trail: 0 }).collect();
                let mut marks = vec![];
                evo::in_pool(1, c.seed, || {
                    e.evolve_population(inds, &p, |pop| {
                        marks.push(shared.lock().unwrap().kinds.len());
                        pop.generation() < c.gens
                    })
                });
                let log = std::mem::take(&mut *shared.lock().unwrap());
                for (g, (x, m)) in log.rates.iter().enumerate() {
                    ensure!(*x == c.cx && *m == c.mx, "rates in generation {g} are {x} / {m} instead of {} / {}", c.cx, c.mx);
                }
                ensure!(log.rates.len() == c.gens, "{} generations instead of {}", log.rates.len(), c.gens);
                let k = marks.len() - 1;
                for part in 0..3 {
                    let (a, b) = (marks[part * k / 3], marks[(part + 1) * k / 3]);
                    let mut cells = [[0u64; 2]; 2];
                    for t in &log.kinds[a..b] {
                        cells[(t & 1) as usize][(t >> 1 & 1) as usize] += 1;
                    }
                    check_joint(&cells, c.cx, c.mx, &format!("generations {}..{}", part * k / 3, (part + 1) * k / 3))?;
                }
                obs.nontrivial_if(c.cx > 0.0 && (c.cx < 1.0 || c.mx < 1.0));
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "fine_rates",
            rule: "1500000 breedings at one pair of rates (any, near 0 or 1, of any small magnitude) with a selector that always offers different parents, all four combinations of crossover and mutation against the product law; non-trivial: a rate that leaves both outcomes open",
            quick: 160,
            thorough: 6_400,
            strat: |_| {
                let r = || prop_oneof![1 => Just(0.0), 1 => Just(1.0), 6 => 0.0f64..1.0, 2 => 0.0f64..0.02, 2 => 0.98f64..1.0, 1 => (1.0f64..5.0).prop_map(|e| 10f64.powf(-e)), 1 => (0u32..=200).prop_map(|k| k as f64 / 200.0)];
                (2usize..300, r(), r(), any::<u64>()).prop_map(|(n, cx, mx, seed)| RunRates { n, gens: 1, cx, mx, seed, elitism: 0.0 }).boxed()
            },
            check: |c, obs| {
                let pop = aged((0..c.n).map(|i| RInd { id: i as u64, trail: 0 }).collect(), c.seed);
                let params = ReproductionParameters { crossover_rate: c.cx, mutation_rate: c.mx, parent_selector: Box::new(CyclicSel(AtomicUsize::new(0))) };
                let mut rng = SmallRng::seed_from_u64(c.seed);
                let mut cells = [[0u64; 2]; 2];
                for _ in 0..1_500_000 {
                    let t = FineModel.breed(&pop, &params, &mut rng).trail;
                    cells[(t & 1) as usize][(t >> 1 & 1) as usize] += 1;
                }
                obs.nontrivial_if(c.cx > 0.0 && (c.cx < 1.0 || c.mx < 1.0));
                check_joint(&cells, c.cx, c.mx, "many breedings")
            },
        }),
        evo::c07_runs(),
        evo::c07_long(),
    ]
}

struct FineModel;
impl EvolutionModel for FineModel {
    type Individual = RInd;
    type Rng = SmallRng;
    fn rng() -> SmallRng {
        SmallRng::seed_from_u64(0)
    }
    fn crossover(&self, _: &RInd, _: &RInd, _: &mut SmallRng) -> RInd {
        RInd { id: 0, trail: 1 }
    }
    fn mutate(&self, i: &mut RInd, _: &mut SmallRng) {
        i.trail |= 2;
    }
    fn evaluate(&self, _: &mut RInd) {}
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RunRates {
    n: usize,
    gens: usize,
    cx: f64,
    mx: f64,
    seed: u64,
    elitism: f64,
}

/// Individuals that are always new and as fit as all others, so that nothing is lost or refused.
#[derive(Clone, PartialEq)]
struct RInd {
    id: u64,
    trail: u8,
}
impl Individual for RInd {
    fn fitness(&self) -> f64 {
        1.0
    }
}
#[derive(Default)]
struct RunLog {
    rates: Vec<(f64, f64)>,
    kinds: Vec<u8>,
    fresh: u64,
}
struct RunModel {
    log: Arc<Mutex<RunLog>>,
}
struct CyclicSel(AtomicUsize);
impl<R: rand::Rng> SelectionMechanism<RInd, R> for CyclicSel {
    fn prepare(&mut self, _: &Population<RInd>) {}
    fn select<'a>(&self, p: &'a Population<RInd>, _: &mut R) -> (usize, &'a RInd) {
        let i = self.0.fetch_add(1, Ordering::Relaxed) % p.len();
        (i, &p[i])
    }
}
impl EvolutionModel for RunModel {
    type Individual = RInd;
    type Rng = evo::ERng;
    fn rng() -> evo::ERng {
        evo::new_rng()
    }
    fn crossover(&self, _: &RInd, _: &RInd, _: &mut evo::ERng) -> RInd {
        RInd { id: 0, trail: 1 }
    }
    fn mutate(&self, i: &mut RInd, _: &mut evo::ERng) {
        i.trail |= 2;
    }
    fn improve(&self, i: &mut RInd) {
        let mut l = self.log.lock().unwrap();
        l.kinds.push(i.trail);
        l.fresh += 1;
        *i = RInd { id: 1_000_000 + l.fresh, trail: 0 };
    }
    fn evaluate(&self, _: &mut RInd) {}
    fn pre_generation(&mut self, p: &Population<RInd>, r: &mut ReproductionParameters<Self>) {
        if p.generation() == 0 {
            r.parent_selector = Box::new(CyclicSel(AtomicUsize::new(0)));
        }
        self.log.lock().unwrap().rates.push((r.crossover_rate, r.mutation_rate));
    }
}
