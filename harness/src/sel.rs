//! C09-C11: selection mechanisms.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::stat;
use proptest::collection::vec;
use proptest::prelude::*;
use rusty_genes::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering};

pub fn subs(prop: &str) -> Option<(Vec<Box<dyn Sub>>, &'static [&'static str])> {
    let v: Vec<Box<dyn Sub>> = match prop {
        "C09" => c09(),
        "C10" => c10(),
        "C11" => c11(),
        _ => return None,
    };
    Some((
        v,
        &[
            "fitness values are finite",
            "frequencies are compared by a Chernoff bound whose false-alarm probability is below 2e-15 per comparison",
        ],
    ))
}

/// Individuals are told apart by `id` only; several may share a fitness.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Mock {
    pub id: u32,
    #[serde(skip)]
    pub fit: Fit,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Fit(pub f64);
impl PartialEq for Fit {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Individual for Mock {
    fn fitness(&self) -> f64 {
        self.fit.0
    }
    /// Whether individuals are valid must not matter to populations and selection.
    fn is_valid(&self) -> bool {
        self.id % 3 != 1
    }
}
pub fn mocks(f: &[f64]) -> Vec<Mock> {
    f.iter().enumerate().map(|(i, &x)| Mock { id: i as u32, fit: Fit(x) }).collect()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum S {
    T(usize),
    Roul,
    Boltz(f64, f64),
    Rank,
    Lin(f64),
    Elit(f64),
}
impl S {
    pub fn strategy(&self) -> SelectionStrategy {
        match *self {
            S::T(k) => SelectionStrategy::Tournament(k),
            S::Roul => SelectionStrategy::RouletteWheel,
            S::Boltz(t, c) => SelectionStrategy::Boltzmann(t, c),
            S::Rank => SelectionStrategy::Rank,
            S::Lin(b) => SelectionStrategy::Linear(b),
            S::Elit(q) => SelectionStrategy::Elitist(q),
        }
    }
    pub fn build(&self, direct: bool) -> Box<dyn SelectionMechanism<Mock, TRng>> {
        if !direct {
            return self.strategy().create_selector();
        }
        // Every other mechanism starts with other parameters and gets these through its setters.
        let reset = |x: f64| (x.to_bits() ^ x.to_bits() >> 23).count_ones() % 2 == 1;
        match *self {
            S::T(k) if k % 2 == 1 => {
                let mut s = TournamentSelection::new(1 + k % 5);
                s.set_size(k);
                Box::new(s)
            }
            S::Boltz(t, c) if reset(t) => {
                let mut s = BoltzmannSelection::new(0.125, 3.0);
                s.set_cooling_rate(c);
                s.set_temperature(t);
                Box::new(s)
            }
            S::Lin(b) if reset(b) => {
                let mut s = LinearSelection::new(1.25);
                s.set_bias(b);
                Box::new(s)
            }
            S::Elit(q) if reset(q) => {
                let mut s = ElitistSelection::new(0.875);
                s.set_ratio(q);
                Box::new(s)
            }
            S::T(k) => Box::new(TournamentSelection::new(k)),
            S::Roul => Box::new(RouletteWheelSelection::new()),
            S::Boltz(t, c) => Box::new(BoltzmannSelection::new(t, c)),
            S::Rank => Box::new(RankSelection::new()),
            S::Lin(b) => Box::new(LinearSelection::new(b)),
            S::Elit(q) => Box::new(ElitistSelection::new(q)),
        }
    }
    pub fn label(&self) -> &'static str {
        match self {
            S::T(_) => "tournament",
            S::Roul => "roulette",
            S::Boltz(..) => "boltzmann",
            S::Rank => "rank",
            S::Lin(_) => "linear",
            S::Elit(_) => "elitist",
        }
    }
}

pub fn ratio01() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => Just(0.0),
        3 => 0.0f64..1.0,
        2 => (0u32..100).prop_map(|k| k as f64 / 100.0),
        2 => (1u32..60, 1u32..60).prop_map(|(a, b)| (a.min(b) as f64 - 1.0) / a.max(b) as f64),
        1 => Just(1.0 - f64::EPSILON / 2.0),
        1 => (any::<bool>(), wide_f64(-15, -1)).prop_map(|(b, x)| if b { 1.0 - x } else { x }),
    ]
    .boxed()
}

/// Any admissible strategy.
pub fn any_strategy() -> BoxedStrategy<S> {
    prop_oneof![
        prop_oneof![4 => 1usize..12, 1 => 12usize..300].prop_map(S::T),
        Just(S::Roul),
        (wide_f64(-6, 6), prop_oneof![Just(1.0), 0.01f64..1.0, 1.0f64..3.0]).prop_map(|(t, c)| S::Boltz(t, c)),
        (wide_f64(-200, 200), 0.01f64..2.0).prop_map(|(t, c)| S::Boltz(t, c)),
        Just(S::Rank),
        prop_oneof![Just(1.0), Just(2.0), 1.0f64..2.0, 1.0f64..1.000001, 0.0f64..10.0].prop_map(S::Lin),
        ratio01().prop_map(S::Elit),
    ]
    .boxed()
}

pub fn pop_size(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        2 => 1usize..4,
        4 => 2usize..12.min(max).max(3),
        3 => 8usize..=80.min(max).max(9),
        1 => 60.min(max)..=max.max(60.min(max)),
    ]
    .prop_map(move |n| n.min(max))
    .boxed()
}

/// Finite fitness values of any kind.
pub fn any_fitness(max: usize) -> BoxedStrategy<Vec<f64>> {
    fitness_of(pop_size(max))
}

pub fn fitness_of(size: BoxedStrategy<usize>) -> BoxedStrategy<Vec<f64>> {
    size.prop_flat_map(|n| {
            prop_oneof![
                3 => vec(0.0f64..1.0, n),
                2 => vec((0i32..6).prop_map(f64::from), n),
                1 => (prop_oneof![Just(0.0), Just(-3.5), Just(7.0), Just(1e-300)]).prop_map(move |x| vec![x; n]),
                2 => vec((-20i32..20).prop_map(|k| f64::from(k) * 0.5), n),
                1 => vec(-1000.0f64..0.0, n),
                1 => vec((any::<bool>(), wide_f64(-300, 300)).prop_map(|(s, x)| if s { -x } else { x }), n),
                1 => vec(prop_oneof![Just(f64::MAX), Just(-f64::MAX), Just(0.0), Just(-0.0), Just(f64::MIN_POSITIVE)], n),
            ]
        })
        .boxed()
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MemberCase {
    strategy: S,
    direct: bool,
    pops: Vec<Vec<f64>>,
    script: Vec<u64>,
    seed: u64,
    tries: usize,
    excluded: u16,
    draws: usize,
}

fn extreme_script() -> BoxedStrategy<Vec<u64>> {
    vec(
        prop_oneof![
            Just(0u64),
            Just(u64::MAX),
            Just(u64::MAX << 11),
            Just((u64::MAX << 11) - 1),
            Just(1u64 << 63),
            Just((1u64 << 63) - 1),
            Just(u32::MAX as u64),
            any::<u64>()
        ],
        0..6,
    )
    .boxed()
}

fn member_case() -> BoxedStrategy<MemberCase> {
    (
        any_strategy(),
        any::<bool>(),
        prop_oneof![12_000 => vec(any_fitness(2000), 1..4), 1 => vec(fitness_of((65_000usize..100_000).boxed()), 1..2)],
        extreme_script(),
        any::<u64>(),
        prop_oneof![Just(0usize), Just(1), Just(3), 2usize..20],
        any::<u16>(),
    )
        .prop_map(|(strategy, direct, pops, script, seed, tries, excluded)| {
            let big = pops.iter().map(Vec::len).max().unwrap();
            MemberCase { strategy, direct, pops, script, seed, tries, excluded, draws: if big > 200 { 4 } else { 16 } }
        })
        .boxed()
}

fn member(pop: &Population<Mock>, got: (usize, &Mock), what: &str) -> CheckResult {
    ensure!(got.0 < pop.len(), "{what} returned index {} in a population of {}", got.0, pop.len());
    ensure!(
        std::ptr::eq(got.1, &pop[got.0]) || *got.1 == pop[got.0],
        "{what} returned index {} with the individual {:?}, but {:?} is stored there",
        got.0,
        got.1,
        pop[got.0]
    );
    Ok(())
}

fn c09() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "membership",
            rule: "any strategy (via the strategy or its constructor) prepared for one to three successive populations of 1..2000 (rarely 100000) finite fitness values (ties, zero, negative, huge), with extreme generator outputs first; non-trivial: population of at least two",
            quick: 480_000,
            thorough: 19_200_000,
            strat: |_| member_case(),
            check: |c, obs| {
                let mut sel = c.strategy.build(c.direct);
                for (k, f) in c.pops.iter().enumerate() {
                    let pop = aged(mocks(f), c.seed ^ k as u64);
                    let what = format!("{:?} on population {k} of {} ({:?}..)", c.strategy, f.len(), &f[..f.len().min(6)]);
                    catch(|| sel.prepare(&pop)).map_err(|p| format!("{what}: prepare: {p}"))?;
                    let mut rng = TRng::scripted(c.seed, c.script.clone());
                    rng.max_draws = 200_000;
                    for _ in 0..c.draws {
                        let got = catch(|| sel.select(&pop, &mut rng)).map_err(|p| format!("{what}: select: {p}"))?;
                        member(&pop, got, &what)?;
                    }
                    // Distinct selection against a replay of plain selections.
                    let excluded = if c.excluded % 5 == 0 {
                        Mock { id: 1_000_000, fit: Fit(f[0]) }
                    } else {
                        pop[c.excluded as usize % pop.len()].clone()
                    };
                    let mut replay = rng.clone();
                    let got = catch(|| sel.select_distinct(&pop, &mut rng, c.tries, &excluded))
                        .map_err(|p| format!("{what}: select_distinct: {p}"))?;
                    let mut want = None;
                    for _ in 0..c.tries {
                        let x = sel.select(&pop, &mut replay);
                        if *x.1 != excluded {
                            want = Some(x.0);
                            break;
                        }
                    }
                    if let Some(g) = got {
                        member(&pop, g, &what)?;
                        ensure!(*g.1 != excluded, "{what}: distinct selection returned the excluded individual {excluded:?}");
                    }
                    ensure!(
                        got.map(|g| g.0) == want,
                        "{what}: distinct selection with {} tries and excluded {excluded:?} gave {:?}, the first different candidate is {want:?}",
                        c.tries, got
                    );
                    obs.label_if(got.is_none(), "no distinct candidate");
                    obs.nontrivial_if(pop.len() >= 2);
                }
                obs.label(c.strategy.label());
                obs.label_if(c.pops.len() > 1 && c.pops.last().unwrap().len() < c.pops[0].len(), "shrinking population");
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "distinct_scripted",
            rule: "a user-defined mechanism returning a scripted sequence of members, 0..12 tries: exactly the first different candidate; non-trivial: at least one candidate equals the excluded individual",
            quick: 480_000,
            thorough: 19_200_000,
            strat: |_| (1usize..8, vec(0usize..8, 1..14), 0usize..13, 0usize..9).prop_map(|(n, picks, tries, excluded)| Scripted { n, picks, tries, excluded }).boxed(),
            check: |c, obs| {
                let pop = Population::new((0..c.n).map(|i| Mock { id: i as u32, fit: Fit((i / 2) as f64) }).collect());
                let mech = ScriptedSel { picks: c.picks.iter().map(|p| p % c.n).collect(), next: AtomicUsize::new(0) };
                let excluded = if c.excluded < c.n { pop[c.excluded].clone() } else { Mock { id: 999, fit: Fit(0.0) } };
                let seq: Vec<usize> = (0..c.tries).map(|k| mech.picks[k % mech.picks.len()]).collect();
                let want = seq.iter().copied().find(|&i| pop[i] != excluded);
                let got = mech.select_distinct(&pop, &mut TRng::new(1), c.tries, &excluded);
                ensure!(
                    got.map(|g| g.0) == want && got.map_or(true, |g| g.1 == &pop[g.0]),
                    "candidates {seq:?}, excluded {excluded:?}: got {got:?}, expected {want:?}"
                );
                let calls = mech.next.load(Ordering::Relaxed);
                ensure!(calls <= c.tries, "{calls} attempts instead of at most {}", c.tries);
                obs.nontrivial_if(seq.iter().any(|&i| pop[i] == excluded));
                obs.label_if(want.is_none(), "nothing distinct");
                Ok(())
            },
        }),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scripted {
    n: usize,
    picks: Vec<usize>,
    tries: usize,
    excluded: usize,
}

struct ScriptedSel {
    picks: Vec<usize>,
    next: AtomicUsize,
}
impl SelectionMechanism<Mock, TRng> for ScriptedSel {
    fn prepare(&mut self, _: &Population<Mock>) {}
    fn select<'a>(&self, p: &'a Population<Mock>, _: &mut TRng) -> (usize, &'a Mock) {
        let i = self.picks[self.next.fetch_add(1, Ordering::Relaxed) % self.picks.len()];
        (i, &p[i])
    }
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LawCase {
    strategy: S,
    direct: bool,
    fitness: Vec<f64>,
    earlier: Vec<Vec<f64>>,
    seed: u64,
    draws: u64,
}

fn rank_strategy() -> BoxedStrategy<S> {
    prop_oneof![
        prop_oneof![50 => 1usize..8, 10 => 8usize..60, 1 => 60usize..6000].prop_map(S::T),
        Just(S::Rank),
        prop_oneof![Just(1.0), Just(2.0), 1.0f64..2.0, 1.0f64..1.0001, (0u32..=20).prop_map(|k| 1.0 + k as f64 / 20.0)].prop_map(S::Lin),
        ratio01().prop_map(S::Elit),
    ]
    .boxed()
}

/// Possible laws by index (ascending fitness) of a rank-based strategy.
fn rank_laws(s: &S, n: usize) -> Vec<Vec<f64>> {
    let nf = n as f64;
    match *s {
        S::T(k) => {
            let k = k as f64;
            vec![(1..=n).map(|r| (r as f64 / nf).powf(k) - ((r - 1) as f64 / nf).powf(k)).collect()]
        }
        S::Rank => vec![(1..=n).map(|r| r as f64 * 2.0 / (nf * (nf + 1.0))).collect()],
        S::Lin(b) => {
            let cdf = |x: f64| b * x - (b - 1.0) * x * x;
            vec![(0..n).rev().map(|k| cdf((k + 1) as f64 / nf) - cdf(k as f64 / nf)).collect()]
        }
        S::Elit(q) => {
            let exact = nf * q;
            let mut bounds = vec![exact.floor() as usize];
            let near = exact.round();
            if (exact - near).abs() < 1e-9 * nf.max(1.0) {
                bounds.push(near as usize);
                if near >= 1.0 {
                    bounds.push(near as usize - 1);
                }
            }
            bounds
                .into_iter()
                .filter(|b| *b < n)
                .map(|b| (0..n).map(|i| if i < b { 0.0 } else { 1.0 / (n - b) as f64 }).collect())
                .collect()
        }
        _ => unreachable!(),
    }
}

fn sample_counts(c: &LawCase, sel: &dyn SelectionMechanism<Mock, TRng>, pop: &Population<Mock>) -> Result<Vec<u64>, String> {
    let mut counts = vec![0u64; pop.len()];
    let mut rng = TRng::new(c.seed);
    rng.max_draws = u64::MAX;
    // A selection may cost time proportional to the population: bound the work of one case.
    let draws = c.draws.min(30_000_000 / pop.len() as u64).max(8_000);
    for _ in 0..draws {
        let (i, x) = sel.select(pop, &mut rng);
        ensure!(i < pop.len() && x == &pop[i], "{:?} returned index {i} with {x:?}", c.strategy);
        counts[i] += 1;
    }
    Ok(counts)
}

fn brief(f: &[f64]) -> String {
    if f.len() <= 16 {
        format!("fitness {f:?}")
    } else {
        format!("{} individuals", f.len())
    }
}

fn c10() -> Vec<Box<dyn Sub>> {
    vec![Box::new(Prop {
        name: "laws",
        rule: "tournament / rank / linear / elitist with generated parameters on populations of 1..900 (sometimes 6000, rarely 110000) individuals with arbitrary fitness values, 30000..120000 selections each compared with the exact law (each outcome and every cumulative); non-trivial: at least two individuals",
        quick: 17_500,
        thorough: 700_000,
        strat: |t| {
            (rank_strategy(), any::<bool>(), prop_oneof![4000 => any_fitness(900), 200 => fitness_of((900usize..6000).boxed()), 7 => fitness_of((65_000usize..110_000).boxed())], any::<u64>(), vec(any_fitness(30), 0..2), any::<bool>())
                .prop_map(move |(strategy, direct, fitness, seed, earlier, long)| LawCase {
                    strategy,
                    direct,
                    fitness,
                    earlier,
                    seed,
                    // A selection by a large tournament takes long.
                    draws: match strategy { S::T(k) if k > 60 => 3_000_000 / k as u64, _ if t == Tier::Thorough => 300_000, _ if long => 120_000, _ => 30_000 },
                })
                .boxed()
        },
        check: |c, obs| {
            let pop = aged(mocks(&c.fitness), c.seed);
            let n = pop.len();
            let mut sel = c.strategy.build(c.direct);
            for f in &c.earlier {
                sel.prepare(&aged(mocks(f), c.seed ^ f.len() as u64));
            }
            sel.prepare(&pop);
            let counts = sample_counts(c, sel.as_ref(), &pop)?;
            let what = format!("{:?} on {}", c.strategy, brief(&c.fitness));
            let mut result = Ok(());
            for law in rank_laws(&c.strategy, n) {
                result = stat::compare(&counts, &law, &what);
                if result.is_ok() {
                    break;
                }
            }
            obs.nontrivial_if(n >= 2);
            obs.label(c.strategy.label());
            obs.count("selections", counts.iter().sum());
            result
        },
    }),
    Box::new(Prop {
        name: "ranks_only",
        rule: "two populations of the same size (1..400, sometimes 3000) whose distinct fitness values are generated independently, with histories of their own: with the same generator, a rank-based strategy selects the same indices with the same number of draws from both; where the second one has ties, individuals of the same fitness as those at these indices; non-trivial: at least two individuals",
        quick: 60_000,
        thorough: 2_400_000,
        strat: |_| {
            (rank_strategy(), prop_oneof![30 => pop_size(400), 1 => (400usize..3000).boxed()], any::<bool>(), vec(any_fitness(30), 0..3), any::<u64>(), 0u8..6)
                .prop_flat_map(|(strategy, n, direct, earlier, seed, ties)| {
                    (Just(strategy), distinct(n), distinct(n), Just(direct), Just(earlier), Just(seed), Just(ties))
                })
                .prop_map(|(strategy, a, b, direct, earlier, seed, ties)| TwinCase { strategy, a, b, direct, earlier, seed, ties })
                .boxed()
        },
        check: |c, obs| {
            let a = aged(mocks(&c.a), c.seed);
            // One of several individuals: an equal fitness for up to `ties` neighbours.
            let level = |k: usize| if c.ties < 2 { k } else { k - k % c.ties as usize };
            let mut b_fit = c.b.clone();
            b_fit.sort_by(f64::total_cmp);
            let b_fit: Vec<f64> = (0..b_fit.len()).map(|k| b_fit[level(k)]).collect();
            let b = aged(mocks(&b_fit), c.seed >> 9);
            ensure!(a.len() == c.a.len() && b.len() == a.len(), "the populations have {} and {} individuals", a.len(), b.len());
            let (mut s, mut t) = (c.strategy.build(c.direct), c.strategy.build(c.direct));
            for f in &c.earlier {
                s.prepare(&aged(mocks(f), c.seed ^ f.len() as u64));
            }
            s.prepare(&a);
            t.prepare(&b);
            let (mut r1, mut r2) = (TRng::new(c.seed), TRng::new(c.seed));
            for k in 0..40 {
                let (i, j) = (s.select(&a, &mut r1).0, t.select(&b, &mut r2).0);
                ensure!(
                    i == j || c.ties >= 2 && i < b.len() && j < b.len() && b[i].fitness() == b[j].fitness(),
                    "{:?} selects {i} from {} and {j} from {} with the same generator (selection {k})",
                    c.strategy, brief(&c.a), brief(&b_fit)
                );
                ensure!(r1.draws == r2.draws, "{:?} draws {} and {} numbers for selection {k}", c.strategy, r1.draws, r2.draws);
            }
            obs.nontrivial_if(a.len() >= 2);
            obs.label(c.strategy.label());
            obs.label_if(c.ties >= 2 && a.len() >= 2, "ties");
            Ok(())
        },
    })]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TwinCase {
    strategy: S,
    a: Vec<f64>,
    b: Vec<f64>,
    direct: bool,
    earlier: Vec<Vec<f64>>,
    seed: u64,
    ties: u8,
}

/// `n` different finite fitness values.
fn distinct(n: usize) -> BoxedStrategy<Vec<f64>> {
    prop_oneof![
        3 => fitness_of(Just(n).boxed()),
        1 => (0usize..n).prop_map(move |k| (0..n).map(|i| if i == k { 1e9 } else { i as f64 * 1e-9 }).collect()),
        1 => (0usize..n).prop_map(move |k| (0..n).map(|i| if i == k { -1e9 } else { i as f64 }).collect()),
        1 => (-700i32..700, any::<bool>()).prop_map(move |(e, neg)| (0..n).map(|i| (i + 1) as f64 * 2f64.powi(e) * if neg { -1.0 } else { 1.0 }).collect()),
    ]
    .prop_map(|mut v: Vec<f64>| {
        // Repeated values move up to the next free one.
        let mut order: Vec<usize> = (0..v.len()).collect();
        order.sort_by(|&i, &j| v[i].partial_cmp(&v[j]).unwrap());
        let mut last = f64::NEG_INFINITY;
        for &i in &order {
            if v[i] <= last {
                v[i] = last.next_up();
            }
            last = v[i];
        }
        if last == f64::INFINITY {
            v.iter_mut().enumerate().for_each(|(i, x)| *x = i as f64);
        }
        v
    })
    .boxed()
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Prepare(Vec<f64>),
    SetT(f64),
    SetRate(f64),
    Times(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BoltzCase {
    t: f64,
    rate: f64,
    steps: Vec<Step>,
    fitness: Vec<f64>,
    seed: u64,
    draws: u64,
}

/// Weights with the spread that makes wrong proportions visible.
fn weights(max: usize) -> BoxedStrategy<Vec<f64>> {
    weights_of(pop_size(max))
}

fn weights_of(size: BoxedStrategy<usize>) -> BoxedStrategy<Vec<f64>> {
    size.prop_flat_map(|n| {
            let scale = prop_oneof![3 => Just(1.0), 1 => wide_f64(-290, 290)];
            let v = prop_oneof![
                3 => vec(0.0f64..1.0, n),
                2 => vec((0i32..5).prop_map(f64::from), n),
                1 => vec((0i32..12).prop_map(|k| 2f64.powi(-k)), n),
                1 => vec(prop_oneof![4 => Just(0.0), 1 => 0.1f64..1.0], n),
                1 => Just(vec![1.0; n]),
                1 => vec((0u8..30).prop_map(|k| if k == 0 { 50.0 } else { 1.0 }), n),
            ];
            (v, scale).prop_map(|(mut v, s)| {
                v.iter_mut().for_each(|x| *x *= s);
                if v.iter().all(|x| *x == 0.0) {
                    v[0] = s;
                }
                v
            })
        })
        .boxed()
}

fn law_of(pop: &Population<Mock>, w: impl Fn(f64) -> f64) -> Vec<f64> {
    let w: Vec<f64> = pop.iter().map(|i| w(i.fitness())).collect();
    let top = w.iter().copied().fold(0.0, f64::max);
    let total: f64 = w.iter().map(|x| x / top).sum();
    w.iter().map(|x| x / top / total).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Related {
    fitness: Vec<i64>,
    /// Fitness values are multiples of two to this power.
    unit: i32,
    boltzmann: bool,
    t: f64,
    coolings: u8,
    rate: i32,
    scale: i32,
    shift: i64,
    seed: u64,
}

/// The selections of a mechanism prepared for these fitness values.
fn picks_of(s: &mut dyn SelectionMechanism<Mock, TRng>, f: &[f64], seed: u64, times: u8) -> (Vec<usize>, u64) {
    let p = Population::new(mocks(f));
    for _ in 0..times {
        s.prepare(&p);
    }
    let mut rng = TRng::new(seed);
    let v = (0..40).map(|_| s.select(&p, &mut rng).0).collect();
    (v, rng.draws)
}

fn c11() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "relations",
            rule: "populations of 1..300 (sometimes 3000) fitness values that are multiples of a power of two, 40 selections with the same generator: roulette selects the same after a scaling by 2^-900..2^900, Boltzmann after shifting all fitness values, after scaling fitness and temperature together, and after k coolings by 2^j from the temperature that they lead to; non-trivial: at least two different fitness values",
            quick: 60_000,
            thorough: 2_400_000,
            strat: |_| {
                let n = prop_oneof![30 => pop_size(300), 1 => (300usize..3000).boxed()];
                let fitness = n.prop_flat_map(|n| prop_oneof![
                    2 => vec(0i64..6, n),
                    3 => vec(0i64..1_000_000, n),
                    1 => vec((0u32..40).prop_map(|e| 1i64 << e), n),
                ]);
                (fitness, -20i32..20, any::<bool>(), wide_f64(-2, 7), 1u8..12, -3i32..3, -900i32..900, prop_oneof![-1000i64..1000, -(1i64 << 40)..1i64 << 40], any::<u64>())
                    .prop_map(|(mut fitness, unit, boltzmann, t, coolings, rate, scale, shift, seed)| {
                        if fitness.iter().all(|x| *x == 0) {
                            fitness[0] = 1;
                        }
                        Related { fitness, unit, boltzmann, t, coolings, rate, scale, shift, seed }
                    })
                    .boxed()
            },
            check: |c, obs| {
                let unit = 2f64.powi(c.unit);
                let f: Vec<f64> = c.fitness.iter().map(|x| *x as f64 * unit).collect();
                let big = 2f64.powi(c.scale);
                let scaled: Vec<f64> = f.iter().map(|x| x * big).collect();
                if c.boltzmann {
                    let t = c.t * unit;
                    let make = |t: f64, rate: f64| BoltzmannSelection::new(t, rate);
                    let plain = picks_of(&mut make(t, 1.0), &f, c.seed, 1);
                    let shifted: Vec<f64> = c.fitness.iter().map(|x| (x + c.shift) as f64 * unit).collect();
                    let other = picks_of(&mut make(t, 1.0), &shifted, c.seed, 1);
                    ensure!(plain == other, "shifted by {}: Boltzmann at temperature {t} selects {other:?} instead of {plain:?} from {}", c.shift as f64 * unit, brief(&f));
                    let other = picks_of(&mut make(t * big, 1.0), &scaled, c.seed, 1);
                    ensure!(plain == other, "scaled by {big}: Boltzmann at temperature {t} selects {other:?} instead of {plain:?} from {}", brief(&f));
                    let rate = 2f64.powi(c.rate);
                    let start = t / 2f64.powi(c.rate * c.coolings as i32);
                    let other = picks_of(&mut make(start, rate), &f, c.seed, c.coolings);
                    ensure!(plain == other, "{} coolings by {rate} from temperature {start}: Boltzmann selects {other:?} instead of {plain:?} as at {t} from {}", c.coolings, brief(&f));
                } else {
                    let plain = picks_of(&mut RouletteWheelSelection::new(), &f, c.seed, 1);
                    let other = picks_of(&mut RouletteWheelSelection::new(), &scaled, c.seed, 1 + c.coolings % 3);
                    ensure!(plain == other, "scaled by {big}: roulette selects {other:?} instead of {plain:?} from {}", brief(&f));
                }
                obs.label(if c.boltzmann { "boltzmann" } else { "roulette" });
                obs.nontrivial_if(c.fitness.iter().any(|x| *x != c.fitness[0]));
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "roulette",
            rule: "non-negative fitness vectors of 1..900 (sometimes 5000, rarely 70000) values (ties, zeros, dominating values, scales 1e-290..1e290), possibly prepared for other populations before, 30000..120000 selections compared with fitness / total; non-trivial: at least two different positive fitness values",
            quick: 1_500,
            thorough: 60_000,
            strat: |t| (prop_oneof![300 => weights(900), 10 => weights_of((900usize..5000).boxed()), 3 => weights_of((65_000usize..70_000).boxed())], vec(any_fitness(60), 0..3), any::<bool>(), any::<u64>(), any::<bool>()).prop_map(move |(fitness, earlier, direct, seed, long)| LawCase {
                strategy: S::Roul, direct, fitness, earlier, seed,
                draws: if t == Tier::Quick { if long { 120_000 } else { 30_000 } } else { 300_000 },
            }).boxed(),
            check: |c, obs| {
                let pop = aged(mocks(&c.fitness), c.seed);
                let mut sel = c.strategy.build(c.direct);
                for f in &c.earlier {
                    sel.prepare(&aged(mocks(f), c.seed ^ f.len() as u64));
                }
                sel.prepare(&pop);
                let counts = sample_counts(c, sel.as_ref(), &pop)?;
                obs.nontrivial_if(pop.iter().filter(|i| i.fitness() > 0.0).any(|i| i.fitness() != pop.stats().max()));
                obs.label_if(!c.earlier.is_empty(), "re-prepared");
                obs.label_if(pop[0].fitness() == 0.0, "with zero fitness");
                stat::compare(&counts, &law_of(&pop, |f| f), &format!("roulette on {}", brief(&c.fitness)))
            },
        }),
        Box::new(Prop {
            name: "boltzmann",
            rule: "temperature 1e-250..1e250 (mostly near the fitness spread), cooling rate 0.05..2, earlier populations, parameter changes, hundreds of coolings, fitness of any sign and size; 30000..120000 selections compared with exp((f - max) / T); non-trivial: at least two individuals with different expected probabilities or a frozen temperature",
            quick: 2_100,
            thorough: 84_000,
            strat: |t| {
                let fitness = prop_oneof![
                    4 => (pop_size(600), wide_f64(-3, 3), -1000.0f64..1000.0).prop_flat_map(|(n, spread, off)|
                        (vec(prop_oneof![3 => (0.0f64..1.0).boxed(), 1 => (0i32..4).prop_map(|k| f64::from(k) / 4.0).boxed()], n), Just(spread), Just(off)))
                        .prop_map(|(v, s, o)| (v.iter().map(|x| x * s + o).collect::<Vec<f64>>(), s)),
                    1 => any_fitness(300).prop_map(|v| { let v: Vec<f64> = v.into_iter().map(|x| x.clamp(-1e300, 1e300)).collect();
                        let s = v.iter().fold(0.0f64, |m, x| m.max(x.abs())); (v, s.max(1e-3)) }),
                ];
                let factor = prop_oneof![6 => wide_f64(-2, 1), 2 => wide_f64(-8, 2), 1 => wide_f64(-200, 3)];
                let step = prop_oneof![
                    3 => any_fitness(30).prop_map(Step::Prepare),
                    1 => wide_f64(-3, 3).prop_map(Step::SetT),
                    1 => (0.2f64..1.5).prop_map(Step::SetRate),
                ];
                let steps = prop_oneof![
                    6 => vec(step, 0..4),
                    1 => prop_oneof![3 => 1u16..400, 1 => Just(9000u16)].prop_map(|k| vec![Step::Times(k)]),
                ];
                let rate = prop_oneof![2 => Just(1.0), 3 => 0.3f64..1.0, 1 => 1.0f64..2.0, 1 => 0.9f64..1.0];
                (fitness, factor, rate, steps, any::<u64>(), any::<bool>()).prop_map(move |((fitness, spread), factor, rate, steps, seed, long)| {
                    // Start so that the final temperature is near spread * factor when only the cooling applies.
                    let coolings = steps.iter().map(|s| match s { Step::Prepare(_) => 1, Step::Times(k) => *k as i32, _ => 0 }).sum::<i32>() + 1;
                    let target = (spread * factor).clamp(1e-250, 1e250);
                    let t0 = (target / rate.powi(coolings)).clamp(1e-250, 1e250);
                    BoltzCase { t: t0, rate, steps, fitness, seed, draws: if t == Tier::Quick { if long { 120_000 } else { 30_000 } } else { 300_000 } }
                }).boxed()
            },
            check: |c, obs| {
                let pop = aged(mocks(&c.fitness), c.seed);
                let mut sel = BoltzmannSelection::new(c.t, c.rate);
                let mut boxed: Box<dyn SelectionMechanism<Mock, TRng>> = SelectionStrategy::Boltzmann(c.t, c.rate).create_selector();
                let (mut t, mut rate) = (c.t, c.rate);
                let mut setters = false;
                let small = Population::new(mocks(&[0.5, 3.0, 1.25]));
                for s in &c.steps {
                    match s {
                        Step::Prepare(f) => {
                            let p = aged(mocks(f), c.seed ^ f.len() as u64);
                            SelectionMechanism::<Mock, TRng>::prepare(&mut sel, &p);
                            boxed.prepare(&p);
                            t *= rate;
                        }
                        Step::Times(k) => for _ in 0..*k {
                            SelectionMechanism::<Mock, TRng>::prepare(&mut sel, &small);
                            boxed.prepare(&small);
                            t *= rate;
                        },
                        Step::SetT(x) => { sel.set_temperature(*x); t = *x; setters = true; }
                        Step::SetRate(x) => { sel.set_cooling_rate(*x); rate = *x; setters = true; }
                    }
                    let near = (sel.temperature() - t).abs() <= 1e-9 * t.abs() + f64::MIN_POSITIVE || sel.temperature() == t;
                    ensure!(near, "temperature is {} instead of {t} after {s:?}", sel.temperature());
                    ensure!(sel.cooling_rate() == rate, "cooling rate is {} instead of {rate}", sel.cooling_rate());
                }
                SelectionMechanism::<Mock, TRng>::prepare(&mut sel, &pop);
                boxed.prepare(&pop);
                t *= rate;
                ensure!((sel.temperature() - t).abs() <= 1e-9 * t.abs() + f64::MIN_POSITIVE || sel.temperature() == t, "temperature is {} instead of {t}", sel.temperature());
                let law_case = LawCase { strategy: S::Boltz(c.t, c.rate), direct: true, fitness: vec![], earlier: vec![], seed: c.seed, draws: c.draws };
                let max = pop.stats().max();
                let mut runs: Vec<&dyn SelectionMechanism<Mock, TRng>> = vec![&sel];
                if !setters {
                    runs.push(boxed.as_ref());
                }
                for s in runs {
                    let counts = sample_counts(&law_case, s, &pop)?;
                    let what = format!("Boltzmann at temperature {t} on {}", brief(&c.fitness));
                    if t < 1e-290 {
                        for (i, k) in counts.iter().enumerate() {
                            ensure!(*k == 0 || pop[i].fitness() == max || (max - pop[i].fitness()) / t < 40.0, "{what}: a less fit individual was chosen");
                        }
                        obs.label("frozen");
                        obs.nontrivial_if(pop.len() > 1);
                    } else {
                        let law = law_of(&pop, |f| ((f - max) / t).exp());
                        obs.nontrivial_if(law.iter().any(|p| (p - law[0]).abs() > 1e-3));
                        stat::compare(&counts, &law, &what)?;
                    }
                }
                obs.label_if(setters, "parameters changed");
                obs.label_if(max.abs() / t > 700.0, "naive exponential would overflow");
                Ok(())
            },
        }),
    ]
}

