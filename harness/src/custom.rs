//! C33: algorithms and models that replace the provided operations are honoured.
use crate::engine::*;
use crate::ensure;
use crate::evo::{elitism, in_pool, new_rng, rate, ERng};
use proptest::collection::vec;
use proptest::prelude::*;
use object_pool::Pool;
use rusty_genes::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

pub fn subs(prop: &str) -> Option<(Vec<Box<dyn Sub>>, &'static [&'static str])> {
    match prop {
        "C33" => Some((c33(), &["operations without a default (crossover, mutation, evaluation, configuration) are covered by the other properties"])),
        _ => None,
    }
}

fn h(x: u64) -> u64 {
    mix(x)
}

/// Individuals are told apart by `v`; their fitness is whatever the algorithm or the model gives them.
#[derive(Clone, Debug)]
struct XInd {
    v: u64,
    fit: f64,
}
impl PartialEq for XInd {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl Individual for XInd {
    fn fitness(&self) -> f64 {
        self.fit
    }
}
impl RandomIndividual<u64> for XInd {
    fn new_random<R: rand::Rng>(args: &u64, rng: &mut R) -> Self {
        x(*args << 20 | (rng.next_u64() & 0xfffff), 0)
    }
}
/// Fitness values repeat if `levels` is not 0.
fn x(v: u64, levels: u64) -> XInd {
    XInd { v, fit: if levels > 0 { (h(v) % levels) as f64 } else { (h(v) >> 12) as f64 } }
}

type List = Vec<(u64, u64)>;
fn list(v: &[XInd]) -> List {
    v.iter().map(|i| (i.v, i.fit.to_bits())).collect()
}
/// A population as it is seen from outside.
type Seen = (List, usize, usize);
fn seen(p: &Population<XInd>) -> Seen {
    (list(p), p.generation(), p.stagnation())
}

#[derive(Clone, Debug, PartialEq)]
enum Call {
    Extend { args: u64, size: usize, before: List, after: List },
    ExtendWith { size: usize, before: List, with: u64, after: List },
    Configure { tag: u64 },
    Init { given: List, made: Seen },
    Progress { pop: Seen },
    Prepare { pop: Seen },
    Elites { pop: Seen, before: List, after: List },
    Generate { pop: Seen, before: List, after: List },
    Replace { pop: Seen, before: List, pop_after: Seen, after: List },
    /// An operation of the model.
    Model(&'static str),
    Breed { pop: Seen, rates: (u64, u64), child: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// 0: everything replaced in the algorithm; 1..: GA, AGA and required operations only.
    alg: u8,
    size: usize,
    /// What `max_population_size` says.
    capacity: usize,
    elitism: f64,
    rates: (f64, f64),
    levels: u64,
    starts: Vec<(u8, Vec<u64>)>,
    gens: usize,
    threads: usize,
    own_extension: bool,
    seed: u64,
}

struct World {
    c: Case,
    log: Mutex<Vec<Call>>,
}
impl World {
    fn add(&self, c: Call) {
        self.log.lock().unwrap().push(c)
    }
    fn made(&self, v: u64) -> XInd {
        x(v, self.c.levels)
    }
}

/// Replaces breeding and the creation of initial individuals.
struct XModel(Arc<World>);
impl XModel {
    /// The number of individuals that the model's own extension makes: fewer or more than asked for, but some.
    fn made_instead_of(&self, size: usize) -> usize {
        let s = self.0.c.seed >> 7;
        match s % 4 {
            0 => 1 + (s >> 3) as usize % size.max(1),
            _ => size.max(1) + s as usize % 4 - 1,
        }
    }
}
impl EvolutionModel for XModel {
    type Individual = XInd;
    type Rng = ERng;
    fn rng() -> ERng {
        new_rng()
    }
    fn crossover(&self, a: &XInd, b: &XInd, _: &mut ERng) -> XInd {
        self.0.add(Call::Model("crossover"));
        XInd { v: a.v ^ b.v, fit: 0.0 }
    }
    fn mutate(&self, i: &mut XInd, rng: &mut ERng) {
        self.0.add(Call::Model("mutation"));
        i.v ^= rand::RngCore::next_u64(rng) & 0xffff;
    }
    fn improve(&self, _: &mut XInd) {
        self.0.add(Call::Model("local search"));
    }
    fn evaluate(&self, i: &mut XInd) {
        self.0.add(Call::Model("evaluation"));
        i.fit = self.0.made(i.v).fit;
    }
    fn breed(&self, population: &Population<XInd>, parameters: &ReproductionParameters<Self>, rng: &mut ERng) -> XInd {
        let k = rand::RngCore::next_u64(rng);
        // Some offspring are members, some are alike.
        let child = match k % 5 {
            0 => population[(k >> 8) as usize % population.len()].v,
            1 => k >> 8 & 15,
            _ => k >> 8 & 0xffff,
        };
        self.0.add(Call::Breed { pop: seen(population), rates: (parameters.crossover_rate.to_bits(), parameters.mutation_rate.to_bits()), child });
        self.0.made(child)
    }
    fn extend_population<T>(&self, individuals: &mut Vec<XInd>, size: usize, args: &T)
    where
        T: Sync,
        XInd: RandomIndividual<T>,
    {
        let before = list(individuals);
        if self.0.c.own_extension {
            // Not as many as asked for, and not in the order of generation.
            let mut rng = new_rng();
            for k in 0..self.made_instead_of(size) {
                let i = XInd::new_random(args, &mut rng);
                individuals.insert(k / 2, self.0.made(i.v));
            }
        } else {
            let mut rng = new_rng();
            for _ in 0..size {
                let i = XInd::new_random(args, &mut rng);
                individuals.push(i);
            }
        }
        let a = XInd::new_random(args, &mut new_rng()).v >> 20;
        self.0.add(Call::Extend { args: a, size, before, after: list(individuals) });
    }
    fn extend_population_with(&self, individuals: &mut Vec<XInd>, size: usize, model: XInd) {
        let before = list(individuals);
        let n = if self.0.c.own_extension { self.made_instead_of(size) } else { size };
        for k in 0..n as u64 {
            individuals.push(self.0.made(model.v + k / 2));
        }
        self.0.add(Call::ExtendWith { size, before, with: model.v, after: list(individuals) });
    }
}

#[derive(Clone)]
struct XParams {
    tag: u64,
    size: usize,
    capacity: usize,
}
impl EvolutionParameters for XParams {
    fn initial_population_size(&self) -> usize {
        self.size
    }
    fn max_population_size(&self) -> usize {
        self.capacity
    }
    fn validate(&self) {}
}

/// Replaces every operation.
struct Full<M: EvolutionModel> {
    model: M,
    world: Arc<World>,
    repro: ReproductionParameters<M>,
    step: u64,
}
trait HasWorld {
    fn world(&self) -> Arc<World>;
}
impl HasWorld for XModel {
    fn world(&self) -> Arc<World> {
        self.0.clone()
    }
}
impl<M: EvolutionModel<Individual = XInd> + HasWorld> From<M> for Full<M> {
    fn from(model: M) -> Self {
        Full { world: model.world(), model, repro: ReproductionParameters::default(), step: 0 }
    }
}
impl<M: EvolutionModel<Individual = XInd> + HasWorld> EvolutionAlgorithm<M> for Full<M> {
    type Parameters = XParams;
    fn model(&self) -> &M {
        &self.model
    }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<M>, usize) {
        (&self.repro, 3)
    }
    fn configure(&mut self, p: &XParams) {
        self.step = h(p.tag);
        self.world.add(Call::Configure { tag: p.tag });
    }
    fn initialize_population(&self, mut individuals: Vec<XInd>) -> Population<XInd> {
        let w = &self.world;
        let given = list(&individuals);
        for i in &mut individuals {
            *i = w.made(i.v);
        }
        let k = self.step >> 3;
        if k % 3 == 0 {
            individuals.push(w.made(k >> 5 & 255));
        } else if k % 3 == 1 {
            individuals.truncate(1 + (k >> 5) as usize % 20);
        }
        let mut p = Population::new(individuals);
        // Some populations have a past.
        for _ in 0..if k >> 20 & 1 == 0 { 0 } else { k >> 30 & 3 } {
            let mut again = p.to_vec();
            p.replace(&mut again);
        }
        w.add(Call::Init { given, made: seen(&p) });
        p
    }
    fn prepare_for_next_population(&mut self, p: &Population<XInd>) {
        self.step = h(self.step);
        self.world.add(Call::Prepare { pop: seen(p) });
    }
    fn select_elites(&self, p: &Population<XInd>, elites: &mut Vec<XInd>) {
        let before = list(elites);
        for k in 0..self.step % 4 {
            let at = (h(self.step ^ k) as usize) % p.len();
            elites.push(if self.step >> 4 & 3 == 0 { self.world.made(500 + k) } else { p[at].clone() });
        }
        self.world.add(Call::Elites { pop: seen(p), before, after: list(elites) });
    }
    fn generate_new_population(&self, p: &Population<XInd>, offspring: &mut Vec<XInd>, pool: &Pool<M::Rng>) {
        let before = list(offspring);
        let s = h(self.step ^ 77);
        // The pool gives usable generators, also several at a time.
        let _a = pool.pull(M::rng);
        let _b = pool.pull(M::rng);
        if s % 7 == 0 {
            offspring.clear();
        }
        for k in 0..s >> 4 & 7 {
            let v = h(s ^ k) & if s >> 8 & 1 == 0 { 0xffff } else { 31 };
            let at = v as usize % (offspring.len() + 1);
            offspring.insert(at, self.world.made(v));
        }
        if offspring.is_empty() {
            offspring.push(p.fittest().clone());
        }
        self.world.add(Call::Generate { pop: seen(p), before, after: list(offspring) });
    }
    fn replace_population(&self, p: &mut Population<XInd>, offspring: &mut Vec<XInd>) {
        let (pop, before) = (seen(p), list(offspring));
        let s = h(self.step ^ 99);
        match s % 6 {
            0 => {}
            1 => {
                p.replace(offspring);
                offspring.push(self.world.made(123_456));
            }
            2 => {
                offspring.extend(p.iter().cloned());
                p.replace(offspring);
            }
            3 => {
                p.replace(offspring);
                p.replace(offspring);
            }
            4 => {
                let mut rest = offspring.split_off(offspring.len() / 2);
                p.replace(&mut rest);
            }
            _ => p.replace(offspring),
        }
        self.world.add(Call::Replace { pop, before, pop_after: seen(p), after: list(offspring) });
    }
}

/// Implements only the required operations.
struct Own<M: EvolutionModel> {
    model: M,
    repro: ReproductionParameters<M>,
    size: usize,
}
impl<M: EvolutionModel<Individual = XInd> + HasWorld> From<M> for Own<M> {
    fn from(model: M) -> Self {
        Own { model, repro: ReproductionParameters::default(), size: 0 }
    }
}
impl<M: EvolutionModel<Individual = XInd> + HasWorld> EvolutionAlgorithm<M> for Own<M> {
    type Parameters = XParams;
    fn model(&self) -> &M {
        &self.model
    }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<M>, usize) {
        (&self.repro, self.size)
    }
    fn configure(&mut self, p: &XParams) {
        self.size = p.size;
        let c = &self.model.world().c;
        (self.repro.crossover_rate, self.repro.mutation_rate) = c.rates;
        self.repro.parent_selector = Box::<RankSelection>::default();
    }
    fn prepare_for_next_population(&mut self, p: &Population<XInd>) {
        self.repro.parent_selector.prepare(p);
    }
}

enum Out {
    Best(XInd),
    Pop(Population<XInd>),
}

fn start<A, M>(e: &Evolution<A, M>, p: &A::Parameters, w: &Arc<World>, kind: u8, given: &[u64]) -> Result<Out, String>
where
    M: EvolutionModel<Individual = XInd>,
    A: EvolutionAlgorithm<M>,
{
    let mut calls = 0;
    let progress = |p: &Population<XInd>| {
        w.add(Call::Progress { pop: seen(p) });
        calls += 1;
        calls <= w.c.gens
    };
    catch(|| match kind {
        0 => Out::Best(e.run(&given[0], p, progress)),
        1 => Out::Best(e.evolve_individual(XInd { v: given[0], fit: 0.0 }, p, progress)),
        _ => Out::Pop(e.evolve_population(given.iter().map(|&v| XInd { v, fit: 0.0 }).collect(), p, progress)),
    })
}

/// What came of the start of a run: the individuals handed to the initialisation.
fn check_start(c: &Case, kind: u8, given: &[u64], calls: &[Call]) -> Result<List, String> {
    let extensions: Vec<&Call> = calls.iter().filter(|k| matches!(k, Call::Extend { .. } | Call::ExtendWith { .. })).collect();
    match (kind, &extensions[..]) {
        (0, [Call::Extend { args, size, before, after }]) => {
            ensure!(*args == given[0] && *size == c.size && before.is_empty(), "the model was asked to extend {before:?} by {size} with argument {args}, instead of an empty list by {} with {}", c.size, given[0]);
            Ok(after.clone())
        }
        (1, [Call::ExtendWith { size, before, with, after }]) => {
            ensure!(*with == given[0] && *size == c.size && before.is_empty(), "the model was asked to extend {before:?} by {size} like {with}, instead of an empty list by {} like {}", c.size, given[0]);
            Ok(after.clone())
        }
        (2.., []) => Ok(given.iter().map(|&v| (v, 0f64.to_bits())).collect()),
        _ => Err(format!("the model was asked to extend the population {} times for start {kind}", extensions.len())),
    }
}

fn check_best(out: &Out, shown: &[Seen]) -> CheckResult {
    match out {
        Out::Best(i) => {
            let all = || shown.iter().flat_map(|s| &s.0);
            let top = all().map(|k| f64::from_bits(k.1)).fold(f64::NEG_INFINITY, f64::max);
            ensure!(i.fit == top && all().any(|k| *k == (i.v, i.fit.to_bits())), "the run returned {i:?}, the best individual shown has fitness {top}");
        }
        Out::Pop(p) => ensure!(seen(p) == *shown.last().unwrap(), "the run returned {:?} instead of the population shown last, {:?}", seen(p), shown.last().unwrap()),
    }
    Ok(())
}

/// The calls of one run of an algorithm that replaces everything.
fn check_full(c: &Case, tag: u64, kind: u8, given: &[u64], calls: &[Call], out: &Out) -> CheckResult {
    let initial = check_start(c, kind, given, calls)?;
    let rest: Vec<&Call> = calls.iter().filter(|k| !matches!(k, Call::Extend { .. } | Call::ExtendWith { .. })).collect();
    let [Call::Configure { tag: t }, Call::Init { given, made }, loops @ ..] = &rest[..] else {
        return Err(format!("the run began with {:?}", rest.iter().take(3).collect::<Vec<_>>()));
    };
    ensure!(*t == tag, "the algorithm was configured with {t} instead of {tag}");
    ensure!(*given == initial, "the algorithm was to initialise {given:?} instead of {initial:?}");
    let extended = calls.iter().position(|k| matches!(k, Call::Extend { .. } | Call::ExtendWith { .. }));
    let init = calls.iter().position(|k| matches!(k, Call::Init { .. }));
    ensure!(extended < init, "the population was extended after its initialisation");
    let mut pop = made.clone();
    let mut shown = vec![];
    let mut it = loops.iter();
    loop {
        match it.next() {
            Some(Call::Progress { pop: p }) if *p == pop => shown.push(pop.clone()),
            k => return Err(format!("{k:?} instead of a progress call with {pop:?}")),
        }
        if shown.len() > c.gens {
            break;
        }
        let n = shown.len() - 1;
        match it.next() {
            Some(Call::Prepare { pop: p }) if *p == pop => {}
            k => return Err(format!("round {n}: {k:?} instead of preparing for the population {pop:?}")),
        }
        let mut offspring = vec![];
        match it.next() {
            Some(Call::Elites { pop: p, before, after }) if *p == pop && *before == offspring => offspring = after.clone(),
            k => return Err(format!("round {n}: {k:?} instead of selecting elites of {pop:?} into an empty list")),
        }
        match it.next() {
            Some(Call::Generate { pop: p, before, after }) if *p == pop && *before == offspring => offspring = after.clone(),
            k => return Err(format!("round {n}: {k:?} instead of generating offspring of {pop:?} beside {offspring:?}")),
        }
        match it.next() {
            Some(Call::Replace { pop: p, before, pop_after, .. }) if *p == pop && *before == offspring => pop = pop_after.clone(),
            k => return Err(format!("round {n}: {k:?} instead of replacing {pop:?} by {offspring:?}")),
        }
    }
    if let Some(k) = it.next() {
        return Err(format!("{k:?} after the last progress call"));
    }
    check_best(out, &shown)
}

/// The distinct individuals in ascending order of fitness; those with the same fitness in any order.
fn as_set(v: &[(u64, u64)]) -> List {
    let mut v = v.to_vec();
    v.sort_by(|a, b| f64::from_bits(a.1).total_cmp(&f64::from_bits(b.1)).then(a.0.cmp(&b.0)));
    v.dedup();
    v
}

/// The calls of one run of an algorithm with the provided operations, whose model has its own breeding.
fn check_bred(c: &Case, kind: u8, given: &[u64], calls: &[Call], out: &Out) -> CheckResult {
    let initial = check_start(c, kind, given, calls)?;
    let made = |v: u64| (v, x(v, c.levels).fit.to_bits());
    let mut shown: Vec<Seen> = vec![];
    let mut children: List = vec![];
    let mut evaluations = 0;
    for k in calls {
        match k {
            Call::Progress { pop } => {
                match shown.last() {
                    None => {
                        ensure!(evaluations == initial.len(), "{evaluations} evaluations of {} initial individuals", initial.len());
                        let want = as_set(&initial.iter().map(|i| made(i.0)).collect::<Vec<_>>());
                        ensure!(as_set(&pop.0) == want && pop.0.len() == want.len(), "the first population is {:?} instead of {want:?}", pop.0);
                    }
                    Some(last) => {
                        ensure!(evaluations == 0, "{evaluations} evaluations, although the model breeds itself");
                        // Elites are compared where fitness values do not tie.
                        let elites: Vec<usize> = match c.alg {
                            3 => vec![1],
                            _ => {
                                let e = c.size as f64 * c.elitism;
                                let mut v = vec![e.floor() as usize];
                                if (e - e.round()).abs() < 1e-9 * c.size as f64 {
                                    v.extend([e.round() as usize, (e.round() as usize).saturating_sub(1)]);
                                }
                                v
                            }
                        };
                        let ok = elites.iter().any(|e| {
                            let e = (*e).min(last.0.len());
                            let mut all = last.0[last.0.len() - e..].to_vec();
                            all.extend(&children);
                            let want = as_set(&all);
                            let enough = children.len() == c.size.saturating_sub(e);
                            let fits = |v: &[(u64, u64)]| v.iter().map(|k| k.1).collect::<Vec<_>>();
                            enough && if c.levels == 0 { as_set(&pop.0) == want && pop.0.len() == want.len() } else { children.iter().all(|k| pop.0.contains(k)) && fits(&pop.0).iter().all(|f| fits(&want).contains(f)) }
                        });
                        ensure!(ok, "generation {}: {} offspring {children:?} were bred from {:?}, elites {elites:?} of {}, and the next population is {:?}", last.1, children.len(), last.0, c.size, pop.0);
                    }
                }
                shown.push(pop.clone());
                children.clear();
                evaluations = 0;
            }
            Call::Breed { pop, rates, child } => {
                let last = shown.last().ok_or("bred before the first progress call")?;
                ensure!(pop == last, "bred from {pop:?} instead of the current population {last:?}");
                if c.alg != 2 {
                    ensure!(*rates == (c.rates.0.to_bits(), c.rates.1.to_bits()), "bred with rates {rates:?} instead of {:?}", c.rates);
                }
                children.push(made(*child));
            }
            Call::Model("evaluation") => evaluations += 1,
            Call::Model(m) => return Err(format!("{m}, although the model breeds itself")),
            _ => {}
        }
    }
    ensure!(children.is_empty() && evaluations == 0 && shown.len() == c.gens + 1, "{} offspring and {evaluations} evaluations after the last of {} progress calls", children.len(), shown.len());
    check_best(out, &shown)
}

fn check(c: &Case, obs: &mut Obs) -> CheckResult {
    let w = Arc::new(World { c: c.clone(), log: Mutex::default() });
    let model = XModel(w.clone());
    in_pool(c.threads, c.seed, || {
        let each = |go: &dyn Fn(u64, u8, &[u64]) -> Result<Out, String>, obs: &mut Obs| {
            for (n, (kind, given)) in c.starts.iter().enumerate() {
                let tag = h(c.seed ^ n as u64);
                let out = go(tag, *kind, given);
                let calls: Vec<Call> = w.log.lock().unwrap().drain(..).collect();
                let out = out.map_err(|m| format!("run {n} ended with {m}"))?;
                if c.alg == 0 {
                    check_full(c, tag, *kind, given, &calls, &out).map_err(|m| format!("run {n}: {m}"))?;
                } else {
                    check_bred(c, *kind, given, &calls, &out).map_err(|m| format!("run {n}: {m}"))?;
                    obs.label_if(calls.iter().any(|k| matches!(k, Call::Breed { .. })), "own breeding");
                }
                obs.label_if(c.own_extension && *kind < 2, "own extension");
                obs.nontrivial_if(c.gens > 0);
            }
            Ok(())
        };
        match c.alg {
            0 => {
                let e = Full::build_evolution(model);
                each(&|tag, kind, given| start(&e, &XParams { tag, size: c.size, capacity: c.capacity }, &w, kind, given), obs)
            }
            1 => {
                let e = GeneticAlgorithm::build_evolution(model);
                let p = GeneticAlgorithmParameters {
                    population_size: c.size,
                    elitism_rate: c.elitism,
                    crossover_rate: c.rates.0,
                    mutation_rate: c.rates.1,
                    selection_strategy: SelectionStrategy::Rank,
                };
                each(&|_, kind, given| start(&e, &p, &w, kind, given), obs)
            }
            2 => {
                let e = AdaptiveGeneticAlgorithm::build_evolution(model);
                let p = AdaptiveGeneticAlgorithmParameters {
                    population_size: c.size,
                    elitism_rate: c.elitism,
                    selection_strategy: SelectionStrategy::Tournament(2),
                    ..Default::default()
                };
                each(&|_, kind, given| start(&e, &p, &w, kind, given), obs)
            }
            _ => {
                let e = Own::build_evolution(model);
                each(&|tag, kind, given| start(&e, &XParams { tag, size: c.size, capacity: c.capacity }, &w, kind, given), obs)
            }
        }
    })
}

fn case(alg: BoxedStrategy<u8>) -> BoxedStrategy<Case> {
    let size = prop_oneof![6 => 1usize..5, 6 => 2usize..20, 1 => 20usize..120];
    (alg, size)
        .prop_flat_map(|(alg, size)| {
            let given = prop_oneof![6 => vec(0u64..40, 1..12), 1 => vec(0u64..2000, 1..200)];
            (
                (Just(alg), Just(size), prop_oneof![3 => Just(size), 1 => 0usize..3, 1 => 0usize..400], elitism(size), (rate(), rate())),
                prop_oneof![1 => Just(0u64), 1 => 1u64..8],
                vec((0u8..3, given), 1..4),
                prop_oneof![12 => 0usize..8, 2 => 8usize..40, 1 => 40usize..200],
                prop_oneof![2 => Just(1usize), 1 => 2usize..5],
                any::<bool>(),
                any::<u64>(),
            )
        })
        .prop_map(|((alg, size, capacity, elitism, rates), levels, starts, gens, threads, own_extension, seed)| Case {
            alg,
            size,
            capacity,
            elitism,
            rates,
            levels,
            starts,
            gens: if size > 20 { gens.min(8) } else { gens },
            threads,
            own_extension,
            seed,
        })
        .boxed()
}

// ---------------------------------------------------------------- own selection

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SelCase {
    n: usize,
    levels: u64,
    /// For each breeding, the first parent and the answer to the request for another one.
    picks: Vec<(u16, Option<u16>)>,
    crossover: bool,
    mutation: bool,
    improvement: bool,
    seed: u64,
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Select,
    Distinct(u64),
    Cross(u64, u64),
    Mutate(u64),
    Improve(u64),
    Evaluate(u64),
    Survive(u64, u64),
}

/// Answers both kinds of requests itself.
struct OwnSel(Arc<Desk>);
struct Desk {
    log: Mutex<Vec<Op>>,
    pick: Mutex<(usize, Option<usize>)>,
    c: SelCase,
}
impl Desk {
    fn add(&self, o: Op) {
        self.log.lock().unwrap().push(o)
    }
}
impl SelectionMechanism<XInd, ERng> for OwnSel {
    fn prepare(&mut self, _: &Population<XInd>) {}
    fn select<'a>(&self, p: &'a Population<XInd>, _: &mut ERng) -> (usize, &'a XInd) {
        self.0.add(Op::Select);
        let k = self.0.pick.lock().unwrap().0;
        (k, &p[k])
    }
    fn select_distinct<'a>(&self, p: &'a Population<XInd>, _: &mut ERng, _: usize, excluded: &XInd) -> Option<(usize, &'a XInd)> {
        self.0.add(Op::Distinct(excluded.v));
        self.0.pick.lock().unwrap().1.map(|k| (k, &p[k]))
    }
}
struct YModel(Arc<Desk>);
impl YModel {
    fn child(&self, a: u64, b: u64) -> u64 {
        h(a ^ h(b ^ self.0.c.seed)) | 1 << 40
    }
}
impl EvolutionModel for YModel {
    type Individual = XInd;
    type Rng = ERng;
    fn rng() -> ERng {
        new_rng()
    }
    fn crossover(&self, a: &XInd, b: &XInd, _: &mut ERng) -> XInd {
        self.0.add(Op::Cross(a.v, b.v));
        XInd { v: self.child(a.v, b.v), fit: f64::NAN }
    }
    fn mutate(&self, i: &mut XInd, _: &mut ERng) {
        self.0.add(Op::Mutate(i.v));
        i.v = h(i.v) | 1 << 41;
    }
    fn improve(&self, i: &mut XInd) {
        self.0.add(Op::Improve(i.v));
        if self.0.c.improvement {
            i.v = h(i.v) | 1 << 42;
        }
    }
    fn evaluate(&self, i: &mut XInd) {
        self.0.add(Op::Evaluate(i.v));
        *i = x(i.v, self.0.c.levels);
    }
    fn can_survive(&self, child: &XInd, parent: &XInd, _: &Population<XInd>, _: &mut ERng) -> bool {
        self.0.add(Op::Survive(child.v, parent.v));
        // A rule of its own.
        h(child.v ^ parent.v) % 3 != 0
    }
}

fn check_selection(c: &SelCase, obs: &mut Obs) -> CheckResult {
    let desk = Arc::new(Desk { log: Mutex::default(), pick: Mutex::new((0, None)), c: c.clone() });
    let model = YModel(desk.clone());
    let pop = Population::new((0..c.n as u64).map(|v| x(v, c.levels)).collect());
    let params = ReproductionParameters::<YModel> {
        crossover_rate: c.crossover as u8 as f64,
        mutation_rate: c.mutation as u8 as f64,
        parent_selector: Box::new(OwnSel(desk.clone())),
    };
    in_pool(1, c.seed, || {
        let mut rng = new_rng();
        for &(a, b) in &c.picks {
            let (a, b) = (a as usize % pop.len(), b.map(|b| b as usize % pop.len()));
            *desk.pick.lock().unwrap() = (a, b);
            let got = catch(|| model.breed(&pop, &params, &mut rng)).map_err(|m| format!("breeding ended with {m}"))?;
            let ops: Vec<Op> = desk.log.lock().unwrap().drain(..).collect();
            // The reference.
            let mut want = vec![Op::Select];
            let (p1, mut fittest) = (&pop[a], &pop[a]);
            let mut v = p1.v;
            if c.crossover && pop.len() > 1 {
                want.push(Op::Distinct(p1.v));
                if let Some(b) = b {
                    if pop[b].fit > p1.fit {
                        fittest = &pop[b];
                    }
                    want.push(Op::Cross(p1.v, pop[b].v));
                    v = model.child(p1.v, pop[b].v);
                    obs.nontrivial = true;
                }
            }
            if c.mutation {
                want.push(Op::Mutate(v));
                v = h(v) | 1 << 41;
            }
            want.push(Op::Improve(v));
            if c.improvement {
                v = h(v) | 1 << 42;
            }
            want.push(Op::Evaluate(v));
            want.push(Op::Survive(v, fittest.v));
            ensure!(ops == want, "breeding from {a} and {b:?} of {:?} went through {ops:?} instead of {want:?}", list(&pop));
            let survivor = if h(v ^ fittest.v) % 3 != 0 { x(v, c.levels) } else { fittest.clone() };
            ensure!(got.v == survivor.v && got.fit == survivor.fit, "breeding from {a} and {b:?} of {:?} gave {got:?} instead of {survivor:?}", list(&pop));
        }
        Ok(())
    })
}

fn c33() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "own_algorithm",
            rule: "one to three runs on one instance of an algorithm that replaces initialisation, elite selection, generation and replacement (populations with a past, no or foreign elites, dropped elites, steady state, joined or repeated replacement, leftovers in the list) with any claimed capacity: the whole history of calls with their arguments; non-trivial: at least one generation",
            quick: 120_000,
            thorough: 4_800_000,
            strat: |_| case(Just(0u8).boxed()),
            check,
        }),
        Box::new(Prop {
            name: "own_breeding",
            rule: "one to three runs of GA, AGA and an algorithm with only the required operations, with a model that replaces breeding and the creation of initial individuals: what is asked of the model in each generation and that its individuals make up the populations; non-trivial: at least one generation",
            quick: 60_000,
            thorough: 2_400_000,
            strat: |_| case((1u8..4).boxed()),
            check,
        }),
        Box::new(Prop {
            name: "own_selection",
            rule: "one to eight breedings with a selection mechanism that also replaces the selection of a distinct individual (it may refuse, or answer with the excluded one) and a model with its own local search and survival rule, populations of 1..30: every operation with its arguments, in order, and the result; non-trivial: two parents",
            quick: 400_000,
            thorough: 16_000_000,
            strat: |_| (1usize..30, prop_oneof![Just(0u64), 1u64..6], vec((any::<u16>(), prop::option::weighted(0.7, any::<u16>())), 1..8), prop::bool::weighted(0.8), any::<bool>(), any::<bool>(), any::<u64>())
                .prop_map(|(n, levels, picks, crossover, mutation, improvement, seed)| SelCase { n, levels, picks, crossover, mutation, improvement, seed }).boxed(),
            check: check_selection,
        }),
    ]
}
