//! C18, C19, C21, C24-C27: statistics, populations, validation, determinism, interpolation, OneMax, wrappers.
use crate::breed;
use crate::engine::*;
use crate::ensure;
use crate::evo::{self, EvoCase};
use crate::gen::*;
use crate::ops::{long_case, xcase, XCase, STRATS};
use crate::sel::{any_fitness, any_strategy, mocks, ratio01, Mock, S};
use crate::stat;
use proptest::collection::vec;
use proptest::prelude::*;
use rand::{rngs::SmallRng, SeedableRng};
use rusty_genes::one_max::*;
use rusty_genes::Stats;
use rusty_genes::*;
use serde::{Deserialize, Serialize};
use std::collections::{BinaryHeap, HashMap};

pub fn subs(prop: &str) -> Option<(Vec<Box<dyn Sub>>, &'static [&'static str])> {
    let v: (Vec<Box<dyn Sub>>, &'static [&'static str]) = match prop {
        "C18" => (c18(), &["samples are finite and their spread squared does not overflow"]),
        "C19" => (c19(), &["fitness values are finite and equal individuals have equal fitness"]),
        "C21" => (c21(), &["not-a-number cooling rates and biases are unspecified and not generated"]),
        "C24" => (c24(), &["equal generator states are copies of one generator; hash seeds differ between the two executions"]),
        "C25" => (c25(), &["bounds are finite and max - min does not overflow"]),
        "C26" => (c26(), &["OneMax lengths of at least one bit where fitness is involved"]),
        "C27" => (c27(), &["fitness values are not NaN"]),
        _ => return None,
    };
    Some(v)
}

// ---------------------------------------------------------------- C18

/// Double-double sums.
#[derive(Clone, Copy, Default)]
struct Dd(f64, f64);
impl Dd {
    fn add(self, x: f64) -> Dd {
        let s = self.0 + x;
        let b = s - self.0;
        let e = (self.0 - (s - b)) + (x - b);
        let lo = self.1 + e;
        let hi = s + lo;
        Dd(hi, lo - (hi - s))
    }
    fn sub(self, o: Dd) -> Dd {
        self.add(-o.0).add(-o.1)
    }
    fn div(self, n: f64) -> Dd {
        let q = self.0 / n;
        let r = (-q).mul_add(n, self.0);
        Dd(q, (r + self.1) / n)
    }
    fn val(self) -> f64 {
        self.0 + self.1
    }
}

/// Mean and sample variance, computed in two passes in double-double arithmetic.
fn exact_moments(v: &[f64]) -> (f64, f64) {
    let n = v.len() as f64;
    let mean = v.iter().fold(Dd::default(), |s, x| s.add(*x)).div(n);
    if v.len() < 2 {
        return (mean.val(), 0.0);
    }
    let mut sum = Dd::default();
    for x in v {
        let d = Dd(*x, 0.0).sub(mean).val();
        let sq = d * d;
        sum = sum.add(sq).add(d.mul_add(d, -sq));
    }
    (mean.val(), sum.val() / (n - 1.0))
}

fn moments_ok(v: &[f64], avg: f64, var: f64, std: f64, what: &str) -> CheckResult {
    let n = v.len() as f64;
    let eps = f64::EPSILON;
    let (mean, variance) = exact_moments(v);
    let top = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    ensure!((avg - mean).abs() <= 8.0 * n * eps * top, "{what}: average {avg} instead of {mean} (count {n})");
    let dev = variance.sqrt();
    // Stable algorithms: relative error n * kappa * eps with kappa = sqrt(1 + mean^2 / variance).
    // The last term covers squares that underflow.
    let tol = 16.0 * n * eps * dev * (dev + top) + (4.0 * n * eps * top).powi(2) * 16.0 + n * f64::MIN_POSITIVE;
    ensure!((var - variance).abs() <= tol || var == variance, "{what}: variance {var} instead of {variance} (allowed error {tol:e}, count {n})");
    ensure!(var >= 0.0 && (std * std - var).abs() <= 1e-12 * var, "{what}: standard deviation {std} for variance {var}");
    if v.len() == 1 {
        ensure!(var == 0.0 && std == 0.0, "{what}: one sample has variance {var}");
    }
    Ok(())
}

fn stats_ok(v: &[f64], s: &PopulatedStats, what: &str) -> CheckResult {
    let min = v.iter().copied().fold(f64::INFINITY, f64::min);
    let max = v.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    let (a, b) = (v.iter().position(|x| *x == min).unwrap(), v.iter().position(|x| *x == max).unwrap());
    ensure!(s.count() == v.len(), "{what}: count {} instead of {}", s.count(), v.len());
    ensure!(s.min() == min && s.max() == max, "{what}: range {}..{} instead of {min}..{max}", s.min(), s.max());
    ensure!(s.arg_min() == a && s.arg_max() == b, "{what}: minimum and maximum at {} and {} instead of {a} and {b}", s.arg_min(), s.arg_max());
    moments_ok(v, s.avg(), s.var(), s.std(), what)
}

/// The optional getters show the same values as the snapshot.
fn getters_ok(v: &[f64], s: &Stats, what: &str) -> CheckResult {
    ensure!(s.count() == v.len(), "{what}: count {} instead of {}", s.count(), v.len());
    if v.is_empty() {
        ensure!(
            s.min().is_none() && s.max().is_none() && s.arg_min().is_none() && s.arg_max().is_none() && s.avg().is_none() && s.var().is_none() && s.std().is_none(),
            "{what}: an empty collection has values: {s:?}"
        );
        ensure!(s.snapshot().is_none(), "{what}: snapshot of an empty collection");
        ensure!(PopulatedStats::try_from(*s).is_err(), "{what}: populated statistics of an empty collection");
        return Ok(());
    }
    let Some(p) = s.snapshot() else { return Err(format!("{what}: no snapshot of {} samples", v.len())) };
    let Ok(q) = PopulatedStats::try_from(*s) else { return Err(format!("{what}: conversion of {} samples was refused", v.len())) };
    for p in [&p, &q] {
        stats_ok(v, p, what)?;
        ensure!(
            s.min() == Some(p.min()) && s.max() == Some(p.max()) && s.arg_min() == Some(p.arg_min()) && s.arg_max() == Some(p.arg_max())
                && s.avg() == Some(p.avg()) && s.var() == Some(p.var()) && s.std() == Some(p.std()),
            "{what}: {s:?} and its populated form {p:?} disagree"
        );
    }
    Ok(())
}

fn printed(p: &PopulatedStats, precision: Option<usize>) -> String {
    let f = |x: f64| match precision {
        Some(k) => format!("{x:.k$}"),
        None => format!("{x}"),
    };
    format!(
        "Samples: {}; Min: {}; Max: {}; Average: {}; Variance: {}; STD: {}",
        p.count(), f(p.min()), f(p.max()), f(p.avg()), f(p.var()), f(p.std())
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StatCase {
    samples: Vec<f64>,
    collected: usize,
    snaps: Vec<u16>,
    precision: usize,
    set: (u16, u16),
}

fn samples(max: usize) -> BoxedStrategy<Vec<f64>> {
    let len = prop_oneof![1 => Just(0usize), 1 => Just(1), 2 => Just(2), 5 => 2usize..20, 2 => 10usize..200, 1 => 100usize..max.max(101)];
    let scale = prop_oneof![3 => Just(1.0), 2 => wide_f64(-12, 12), 1 => wide_f64(-140, 140)];
    let offset = prop_oneof![3 => Just(0.0), 3 => wide_f64(-1, 12), 1 => Just(1.0), 2 => wide_f64(6, 14).prop_map(|x| -x)];
    (len, scale, offset)
        .prop_flat_map(|(n, s, o)| {
            let base = prop_oneof![
                3 => vec(-1.0f64..1.0, n),
                2 => vec((0i32..4).prop_map(f64::from), n),
                1 => vec(Just(0.25), n),
                1 => (vec(0.0f64..1.0, n)).prop_map(|mut v| { v.sort_by(f64::total_cmp); v }),
                1 => (vec(0.0f64..1.0, n)).prop_map(|mut v| { v.sort_by(|a, b| b.total_cmp(a)); v }),
                1 => vec((any::<bool>(), wide_f64(-150, 140)).prop_map(|(s, x)| if s { -x } else { x }), n),
                1 => vec(prop_oneof![Just(0.0), Just(-0.0), Just(1.0), Just(-1.0)], n),
            ];
            base.prop_map(move |v| v.into_iter().map(|x| if x.abs() > 1e20 { x } else { (x + o) * s }.clamp(-1e145, 1e145)).collect::<Vec<f64>>())
        })
        .boxed()
}

/// Many samples, made when they are needed.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ManySamples {
    n: usize,
    seed: u64,
    kind: u8,
    scale: f64,
    offset: f64,
    c: u32,
}
impl ManySamples {
    fn case(&self) -> StatCase {
        let samples: Vec<f64> = (0..self.n)
            .map(|i| {
                let u = (mix(self.seed ^ i as u64) >> 11) as f64 / (1u64 << 53) as f64;
                self.offset
                    + self.scale
                        * match self.kind {
                            0 => u,
                            1 => i as f64 + u,
                            2 => -(i as f64) - u,
                            3 => (u * 5.0).floor(),
                            // A late change of level.
                            _ => u * 0.1 + (i > self.n / 8 * 7) as u8 as f64,
                        }
            })
            .collect();
        let c = self.c as usize;
        StatCase { collected: match c % 3 { 0 => self.n, 1 => 0, _ => c % self.n }, samples, snaps: vec![c as u16], precision: 3, set: (c as u16, c as u16) }
    }
}

fn check_samples(c: &StatCase, obs: &mut Obs) -> CheckResult {
    let v = &c.samples;
    let whole: Stats = v.iter().copied().collect();
    getters_ok(v, &whole, "collected")?;
    let mut one = Stats::default();
    let mut snaps: Vec<(usize, Option<PopulatedStats>)> = vec![];
    let marks: Vec<usize> = c.snaps.iter().map(|s| *s as usize % (v.len() + 1)).collect();
    for (k, x) in v.iter().enumerate() {
        if marks.contains(&k) {
            snaps.push((k, one.snapshot()));
        }
        one.record(*x);
    }
    getters_ok(v, &one, "recorded")?;
    let mut mixed: Stats = v[..c.collected].iter().copied().collect();
    getters_ok(&v[..c.collected], &mixed, "collected part")?;
    for x in &v[c.collected..] {
        mixed.record(*x);
    }
    getters_ok(v, &mixed, "collected and recorded")?;
    for (k, s) in &snaps {
        match s {
            None => ensure!(*k == 0, "no snapshot after {k} samples"),
            Some(s) => stats_ok(&v[..*k], s, &format!("snapshot after {k} of {} samples", v.len()))?,
        }
    }
    if let Some(p) = whole.snapshot() {
        for (how, s) in [("populated", &p as &dyn std::fmt::Display), ("unpopulated", &whole)] {
            let k = c.precision;
            ensure!(format!("{s:.k$}") == printed(&p, Some(k)), "{how} statistics print as '{s:.k$}' instead of '{}'", printed(&p, Some(k)));
            ensure!(format!("{s}") == printed(&p, None), "{how} statistics print as '{s}' instead of '{}'", printed(&p, None));
        }
        let n = v.len();
        let (a, b) = (c.set.0 as usize % (n + 2), c.set.1 as usize % (n + 2));
        let mut q = p;
        let r = catch(|| { q.set_arg_min(a); q });
        ensure!(r.is_ok() == (a < n), "set_arg_min({a}) with {n} samples: {r:?}");
        if let Ok(q) = r {
            ensure!(q.arg_min() == a, "set_arg_min({a}) gave {}", q.arg_min());
            let mut back = q;
            back.set_arg_min(p.arg_min());
            ensure!(format!("{back:?}") == format!("{p:?}"), "set_arg_min changed more than the index: {p:?} became {q:?}");
        }
        let mut q = p;
        let r = catch(|| { q.set_arg_max(b); q });
        ensure!(r.is_ok() == (b < n), "set_arg_max({b}) with {n} samples: {r:?}");
        if let Ok(q) = r {
            ensure!(q.arg_max() == b, "set_arg_max({b}) gave {}", q.arg_max());
            let mut back = q;
            back.set_arg_max(p.arg_max());
            ensure!(format!("{back:?}") == format!("{p:?}"), "set_arg_max changed more than the index: {p:?} became {q:?}");
        }
    }
    obs.nontrivial_if(v.len() >= 3 && v.iter().any(|x| *x != v[0]));
    obs.label_if(v.is_empty(), "empty");
    if v.len() > 1 {
        let (m, var) = exact_moments(v);
        obs.label_if(m.abs() > 1e6 * var.sqrt(), "offset above 1e6 deviations");
    }
    Ok(())
}

fn c18() -> Vec<Box<dyn Sub>> {
    let strat = |t: Tier| {
        (samples(if t == Tier::Quick { 3000 } else { 60_000 }), any::<u16>(), vec(any::<u16>(), 0..5), prop_oneof![6 => 0usize..18, 1 => 18usize..60, 1 => prop_oneof![Just(100usize), Just(340), Just(1000)]], any::<(u16, u16)>(), any::<bool>())
            .prop_map(|(samples, c, snaps, precision, set, whole)| {
                let n = samples.len();
                StatCase { collected: if whole { n } else { c as usize % (n + 1) }, samples, snaps, precision, set }
            })
            .boxed()
    };
    fn of(n: BoxedStrategy<usize>) -> BoxedStrategy<ManySamples> {
        (n, any::<u64>(), 0u8..5, wide_f64(-3, 3), -1e6f64..1e6, any::<u32>()).prop_map(|(n, seed, kind, scale, offset, c)| ManySamples { n, seed, kind, scale, offset, c }).boxed()
    }
    let many = |_| of((65_000usize..70_000).boxed());
    let huge = |_| of(prop_oneof![9 => (17u32..22, 0usize..1000).prop_map(|(k, d)| (1usize << k) + d), 9 => 100_000usize..4_000_000, 2 => (1usize << 24)..(1 << 24) + 300_000].boxed());
    vec![Box::new(Prop {
        name: "many_samples",
        rule: "65000..70000 samples, random, rising, falling or few values; non-trivial: all",
        quick: 48,
        thorough: 1_920,
        strat: many,
        check: |c: &ManySamples, obs| check_samples(&c.case(), obs),
    }), Box::new(Prop {
        name: "huge_samples",
        rule: "100000 to 4 million samples, rarely 17 million, of the same kinds; non-trivial: all",
        quick: 32,
        thorough: 960,
        strat: huge,
        check: |c: &ManySamples, obs| check_samples(&c.case(), obs),
    }), Box::new(Prop {
        name: "samples",
        rule: "sample sequences of 0..3000 (thorough 60000) finite values with ties, offsets up to 1e15 times the spread and magnitudes 1e-150..1e150, collected, recorded one by one, or collected and then recorded; against double-double arithmetic; snapshots, setters and printing; non-trivial: at least three samples that are not all equal",
        quick: 480_000,
        thorough: 19_200_000,
        strat,
        check: check_samples,
    })]
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PopCase {
    /// Fitness levels: 0 = all different, 1 = all equal, k = few levels; with a transformation.
    levels: u32,
    transform: u8,
    seed: u64,
    gens: Vec<Vec<u32>>,
    large: Vec<(u32, u32)>,
    threads: usize,
    finish: u8,
}

impl PopCase {
    fn fit(&self, id: u32) -> f64 {
        let h = mix(self.seed ^ id as u64);
        let x = if self.levels == 0 { (h >> 11) as f64 / (1u64 << 53) as f64 } else { (h % self.levels as u64) as f64 };
        match self.transform {
            0 => x,
            1 => -x,
            2 => (x - 1.0) * 1e300,
            3 => x * 1e-310,
            4 => if x == 0.0 { if h >> 40 & 1 == 0 { 0.0 } else { -0.0 } } else { x },
            _ => x - 2.0,
        }
    }
    fn ids(&self) -> Vec<Vec<u32>> {
        let mut g = self.gens.clone();
        for (k, &(n, span)) in self.large.iter().enumerate() {
            g.push((0..n).map(|i| (mix(self.seed ^ mix((k as u64) << 32 | i as u64)) % span.max(1) as u64) as u32).collect());
        }
        g
    }
}

#[derive(Clone, Debug)]
struct PInd {
    id: u32,
    fit: f64,
}
impl PartialEq for PInd {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl Individual for PInd {
    fn fitness(&self) -> f64 {
        self.fit
    }
    /// Whether individuals are valid must not matter to populations and statistics.
    fn is_valid(&self) -> bool {
        self.id % 5 != 2
    }
}

fn sorted_ids(v: &[PInd]) -> Vec<u32> {
    let mut v: Vec<u32> = v.iter().map(|i| i.id).collect();
    v.sort_unstable();
    v
}

fn check_set(c: &PopCase, given: &[u32], p: &Population<PInd>, what: &str) -> CheckResult {
    let mut want = given.to_vec();
    want.sort_unstable();
    want.dedup();
    let got = sorted_ids(p);
    if got != want {
        let mut counts: HashMap<u32, i64> = HashMap::new();
        for i in &got {
            *counts.entry(*i).or_default() += 1;
        }
        for i in &want {
            *counts.entry(*i).or_default() -= 1;
        }
        let bad = counts.iter().find(|(_, n)| **n != 0);
        return Err(format!(
            "{what}: {} individuals for {} distinct of {} given; individual {:?} {}",
            got.len(), want.len(), given.len(), bad.map(|b| b.0), if bad.map_or(false, |b| *b.1 > 0) { "is repeated or invented" } else { "is missing" }
        ));
    }
    for w in p.windows(2) {
        ensure!(w[0].fit <= w[1].fit, "{what}: fitness {} comes before {}", w[0].fit, w[1].fit);
    }
    for i in p.iter() {
        ensure!(i.fit.to_bits() == c.fit(i.id).to_bits(), "{what}: individual {} has a changed fitness", i.id);
    }
    let max = want.iter().map(|i| c.fit(*i)).fold(f64::NEG_INFINITY, f64::max);
    let min = want.iter().map(|i| c.fit(*i)).fold(f64::INFINITY, f64::min);
    ensure!(p.fittest().fit == max, "{what}: the fittest has {} instead of {max}", p.fittest().fit);
    let s = p.stats();
    ensure!(s.count() == want.len() && s.min() == min && s.max() == max, "{what}: statistics {s:?} for {} individuals in {min}..{max}", want.len());
    Ok(())
}

fn check_pop(c: &PopCase, obs: &mut Obs) -> CheckResult {
    let inds = |ids: &[u32]| ids.iter().map(|&id| PInd { id, fit: c.fit(id) }).collect::<Vec<_>>();
    let gens = c.ids();
    let mut pop = if c.seed % 2 == 0 {
        Population::new(inds(&gens[0]))
    } else {
        match Population::try_from(inds(&gens[0])) {
            Ok(p) => p,
            Err(_) => return Err("a non-empty collection was refused".into()),
        }
    };
    let (mut generation, mut stagnation) = (0, 0);
    check_set(c, &gens[0], &pop, "new population")?;
    ensure!(pop.generation() == 0 && pop.stagnation() == 0, "new population has counters {} and {}", pop.generation(), pop.stagnation());
    for (k, ids) in gens.iter().enumerate().skip(1) {
        let old = sorted_ids(&pop);
        let best = pop.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
        let mut list = inds(ids);
        pop.replace(&mut list);
        let what = format!("replacement {k}");
        check_set(c, ids, &pop, &what)?;
        ensure!(sorted_ids(&list) == old, "{what}: {} individuals were handed back instead of the {} previous ones", list.len(), old.len());
        generation += 1;
        let now = pop.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
        stagnation = if now > best { 0 } else { stagnation + 1 };
        ensure!(
            pop.generation() == generation && pop.stagnation() == stagnation,
            "{what}: counters {} and {} instead of {generation} and {stagnation} (best {best} became {now})", pop.generation(), pop.stagnation()
        );
        obs.label_if(now < best, "best fitness fell");
    }
    let last = gens.last().unwrap();
    obs.nontrivial_if(pop.len() >= 2);
    obs.label_if(pop.len() < last.len(), "duplicates");
    obs.label_if(pop.windows(2).any(|w| w[0].fit == w[1].fit), "ties");
    obs.label_if(last.len() > 1000, "more than 1000");
    match c.finish % 3 {
        0 => {
            let ids = sorted_ids(&pop);
            let v: Vec<PInd> = pop.into();
            ensure!(sorted_ids(&v) == ids && v.windows(2).all(|w| w[0].fit <= w[1].fit), "conversion back changed the individuals");
        }
        1 => {
            let max = pop.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
            let ids = sorted_ids(&pop);
            let f = pop.take_fittest();
            ensure!(f.fit == max && ids.contains(&f.id), "take_fittest gave fitness {} instead of {max}", f.fit);
        }
        _ => {
            let e = Population::<PInd>::try_from(vec![]);
            ensure!(matches!(&e, Err(v) if v.is_empty()), "an empty collection was accepted");
            ensure!(catch(|| Population::<PInd>::new(vec![]).len()).is_err(), "a population was built from nothing");
            ensure!(catch(|| pop.replace(&mut vec![])).is_err(), "a population was replaced by nothing");
        }
    }
    Ok(())
}

fn c19() -> Vec<Box<dyn Sub>> {
    fn shape() -> impl Strategy<Value = (u32, u8, u64)> {
        (prop_oneof![2 => Just(0u32), 2 => Just(1), 4 => 2u32..6, 2 => 6u32..40], 0u8..6, any::<u64>())
    }
    vec![
        Box::new(Prop {
            name: "small_histories",
            rule: "histories of 1..40 populations of 1..24 individuals with repeated individuals and heavy fitness ties (signed zeros, subnormal and huge values); state machine of contents, order, counters; non-trivial: at least two distinct individuals at the end",
            quick: 1_600_000,
            thorough: 64_000_000,
            strat: |_| (shape(), prop_oneof![4 => vec(vec(0u32..30, 1..24), 1..6), 1 => vec(vec(0u32..9, 1..6), 6..40)], 0u8..3)
                .prop_map(|((levels, transform, seed), gens, finish)| PopCase { levels, transform, seed, gens, large: vec![], threads: 1, finish }).boxed(),
            check: |c, obs| check_pop(c, obs),
        }),
        Box::new(Prop {
            name: "large_populations",
            rule: "populations of 20..8000 (rarely 70000) individuals drawn with repetition, sorted by 1..8 threads; non-trivial: at least two distinct individuals",
            quick: 20_000,
            thorough: 800_000,
            strat: |_| (shape(), vec((prop_oneof![3 => 20u32..400, 2 => 300u32..2500, 1 => 2000u32..8000], any::<u16>()), 1..4), prop_oneof![400 => Just(0u32), 1 => 65_500u32..70_000], 0u8..3, prop_oneof![Just(1usize), Just(2), Just(4), Just(8)])
                .prop_map(|((levels, transform, seed), mut large, huge, finish, threads)| {
                  let levels = if huge > 0 { large[0].0 = huge; 0 } else { levels };
                  PopCase {
                    // Telling equals apart is quadratic in the number of individuals with the same fitness.
                    levels: if levels == 1 && large.iter().any(|l| l.0 > 2500) { 3 } else { levels },
                    transform, seed, gens: vec![],
                    large: large.into_iter().map(|(n, s)| (n, match s % 4 { 0 => n / 2 + 1, 1 => n * 8, 2 => 40, _ => n })).collect(),
                    threads, finish } }).boxed(),
            check: |c, obs| {
                let mut o = Obs::default();
                let r = evo::in_pool(c.threads, c.seed, || check_pop(c, &mut o));
                obs.nontrivial = o.nontrivial;
                obs.labels.extend(o.labels);
                r
            },
        }),
    ]
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ParamCase {
    alg: u8,
    start: u8,
    size: usize,
    elitism: f64,
    rates: [f64; 4],
    interval: usize,
    strategy: S,
    earlier: bool,
    default_fields: u8,
}

#[derive(Clone, Copy, Debug)]
struct Lit(f64);

fn maybe_bad(bad: bool) -> BoxedStrategy<f64> {
    if bad {
        prop_oneof![
            2 => Just(Lit(f64::NAN)),
            1 => Just(Lit(f64::INFINITY)),
            1 => Just(Lit(f64::NEG_INFINITY)),
            1 => Just(Lit(1.0 + f64::EPSILON)),
            1 => Just(Lit(-f64::MIN_POSITIVE)),
            1 => Just(Lit(-1e-12)),
            1 => (1.0f64..100.0).prop_map(|x| Lit(1.0 + x)),
            1 => (0.001f64..100.0).prop_map(|x| Lit(-x)),
        ]
        .prop_map(|l| l.0)
        .boxed()
    } else {
        prop_oneof![2 => Just(0.0), 2 => Just(1.0), 4 => 0.0f64..=1.0, 1 => Just(-0.0), 1 => Just(f64::MIN_POSITIVE), 1 => Just(1.0 - f64::EPSILON / 2.0)].boxed()
    }
}

fn param_case() -> BoxedStrategy<ParamCase> {
    // Mostly exactly one invalid parameter, so that a missing test is not hidden by another one.
    (0u8..2, 0u8..10, 0u8..3).prop_flat_map(|(alg, bad, start)| {
        let size = if bad == 0 { Just(0usize).boxed() } else { prop_oneof![2 => Just(1usize), 1 => Just(2), 3 => 1usize..30].boxed() };
        let elitism = if bad == 1 { prop_oneof![2 => Just(1.0), 3 => maybe_bad(true)].boxed() } else { prop_oneof![ratio01(), Just(-0.0)].boxed() };
        let n = if alg == 0 { 2 } else { 4 };
        let which = (bad as usize).wrapping_sub(2);
        let r = |i: usize| maybe_bad(which == i && which < n);
        let rates = (r(0), r(1), r(2), r(3));
        (Just(alg), Just(start), size, elitism, rates, 0usize..4, any_strategy(), any::<bool>(), 0u8..2)
    })
    .prop_map(|(alg, start, size, elitism, r, interval, strategy, earlier, default_fields)| ParamCase {
        alg, start, size, elitism, rates: [r.0, r.1, r.2, r.3], interval, strategy: match strategy { S::T(k) => S::T(k.min(20)), s => s }, earlier, default_fields,
    })
    .boxed()
}

// JSON has no NaN, so cases are stored bit by bit.
mod bits {
    use super::*;
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Raw {
        pub alg: u8,
        pub start: u8,
        pub size: usize,
        pub elitism: u64,
        pub rates: [u64; 4],
        pub interval: usize,
        pub strategy: S,
        pub earlier: bool,
        pub shown: String,
    }
    impl From<ParamCase> for Raw {
        fn from(c: ParamCase) -> Raw {
            Raw {
                shown: format!("elitism {:?}, rates {:?}", c.elitism, c.rates),
                alg: c.alg, start: c.start, size: c.size, elitism: c.elitism.to_bits(), rates: c.rates.map(f64::to_bits),
                interval: c.interval, strategy: c.strategy, earlier: c.earlier,
            }
        }
    }
    impl Raw {
        pub fn get(&self) -> ParamCase {
            ParamCase {
                alg: self.alg, start: self.start, size: self.size, elitism: f64::from_bits(self.elitism), rates: self.rates.map(f64::from_bits),
                interval: self.interval, strategy: self.strategy, earlier: self.earlier, default_fields: 0,
            }
        }
    }
}

fn start_run<A, M>(e: &Evolution<A, M>, p: &A::Parameters, start: u8, gens: usize, calls: &mut usize, size: usize) -> Result<(), String>
where
    A: EvolutionAlgorithm<M>,
    M: evo::Tm,
{
    let shared = evo::Shared::new(evo::plain_cfg());
    let args = evo::GenArgs { shared };
    evo::in_pool(1, size as u64, || {
        catch(|| {
            let mut progress = |p: &Population<evo::TInd>| {
                *calls += 1;
                p.generation() < gens
            };
            match start {
                0 => drop(e.run(&args, p, &mut progress)),
                1 => drop(e.evolve_individual(evo::TInd::new(vec![1, 2, 3, 0]), p, &mut progress)),
                _ => drop(e.evolve_population((0..4).map(|i| evo::TInd::new(vec![i; 4])).collect(), p, &mut progress)),
            }
        })
    })
}

fn c21() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "run_validation",
            rule: "GA and AGA parameters with at most one invalid field (not a number, infinite, just outside, far outside; elitism exactly 1; size 0), every kind of start: a panic before any progress call exactly for the invalid ones; non-trivial: one field is invalid or at a bound",
            quick: 600_000,
            thorough: 24_000_000,
            strat: |_| param_case().prop_map(bits::Raw::from).boxed(),
            check: |raw, obs| {
                let c = raw.get();
                let unit = |x: f64| (0.0..=1.0).contains(&x);
                let n = if c.alg == 0 { 2 } else { 4 };
                let valid = c.size > 0 && c.elitism >= 0.0 && c.elitism < 1.0 && c.rates[..n].iter().all(|r| unit(*r));
                let mut calls = 0;
                let shared = evo::Shared::new(evo::plain_cfg());
                let (r, direct) = if c.alg == 0 {
                    let p = GeneticAlgorithmParameters {
                        population_size: c.size, elitism_rate: c.elitism, crossover_rate: c.rates[0], mutation_rate: c.rates[1], selection_strategy: c.strategy.strategy(),
                    };
                    let e = GeneticAlgorithm::build_evolution(<evo::TM as evo::Tm>::make(shared));
                    if c.earlier {
                        let ok = GeneticAlgorithmParameters { population_size: 5, ..Default::default() };
                        start_run(&e, &ok, c.start, 1, &mut 0, 5).map_err(|m| format!("a valid run before: {m}"))?;
                    }
                    (start_run(&e, &p, c.start, 2, &mut calls, c.size), catch(|| p.validate()))
                } else {
                    let p = AdaptiveGeneticAlgorithmParameters {
                        population_size: c.size, elitism_rate: c.elitism, crossover_rate_range: c.rates[0]..c.rates[1], mutation_rate_range: c.rates[2]..c.rates[3],
                        selection_strategy: c.strategy.strategy(), parameter_adjustment_interval: c.interval,
                    };
                    let e = AdaptiveGeneticAlgorithm::build_evolution(<evo::TM as evo::Tm>::make(shared));
                    if c.earlier {
                        let ok = AdaptiveGeneticAlgorithmParameters { population_size: 5, ..Default::default() };
                        start_run(&e, &ok, c.start, 1, &mut 0, 5).map_err(|m| format!("a valid run before: {m}"))?;
                    }
                    (start_run(&e, &p, c.start, 2, &mut calls, c.size), catch(|| p.validate()))
                };
                let shown = format!("size {}, {}", c.size, raw.shown);
                if valid {
                    ensure!(direct.is_ok(), "valid parameters were rejected: {shown}");
                    if let Err(m) = r {
                        return Err(format!("a run with valid parameters ({shown}) ended with {m}"));
                    }
                    ensure!(calls == 3, "{calls} progress calls instead of 3");
                } else {
                    ensure!(r.is_err(), "a run with invalid parameters was accepted: {shown}");
                    ensure!(calls == 0, "{calls} progress calls before the parameters were rejected: {shown}");
                    ensure!(direct.is_err(), "invalid parameters passed validation: {shown}");
                }
                let at_bound = c.size == 1 || c.elitism == 0.0 || c.rates[..n].iter().any(|r| *r == 0.0 || *r == 1.0);
                obs.nontrivial_if(!valid || at_bound);
                obs.label(if valid { "valid" } else { "invalid" });
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "selector_parameters",
            rule: "constructors, strategies, setters and getters of all selection mechanisms with parameters in and outside their domain; non-trivial: all",
            quick: 600_000,
            thorough: 24_000_000,
            strat: |_| (prop_oneof![2 => Just(0usize), 3 => 1usize..50, 1 => Just(usize::MAX)], any::<bool>(), any::<u64>()).prop_flat_map(|(k, bad, x)|
                (Just(k), prop_oneof![1 => maybe_bad(bad), 1 => Just(1.0)], prop_oneof![1 => Just(0.0), 4 => wide_f64(-300, 300)], (-10.0f64..10.0, Just(x))))
                .prop_map(|(k, q, rate, (t, seed))| SelParams { k, q: q.to_bits(), rate, t, seed }).boxed(),
            check: |c, obs| {
                obs.nontrivial = true;
                let q = f64::from_bits(c.q);
                let strat = |s: SelectionStrategy| catch(|| { let _: Box<dyn SelectionMechanism<Mock, TRng>> = s.create_selector(); }).is_ok();
                // Tournament.
                let want = c.k != 0;
                let r = catch(|| TournamentSelection::new(c.k));
                ensure!(r.is_ok() == want && strat(SelectionStrategy::Tournament(c.k)) == want, "tournament of size {}: accepted is {}", c.k, r.is_ok());
                if let Ok(s) = r { ensure!(s.size() == c.k, "tournament of size {} reports {}", c.k, s.size()); }
                let r = catch(|| { let mut s = TournamentSelection::new(3); s.set_size(c.k); s.size() });
                ensure!(r.as_ref().ok() == want.then_some(&c.k), "set_size({}) gave {r:?}", c.k);
                // Elitist.
                let want = q >= 0.0 && q < 1.0;
                let r = catch(|| ElitistSelection::new(q).ratio());
                ensure!(r.as_ref().ok().map(|x| x.to_bits()) == want.then_some(c.q) && strat(SelectionStrategy::Elitist(q)) == want, "elitist ratio {q}: {r:?}");
                let r = catch(|| { let mut s = ElitistSelection::new(0.25); s.set_ratio(q); s.ratio() });
                ensure!(r.as_ref().ok().map(|x| x.to_bits()) == want.then_some(c.q), "set_ratio({q}) gave {r:?}");
                // Boltzmann.
                let want = c.rate != 0.0;
                let r = catch(|| { let s = BoltzmannSelection::new(c.t, c.rate); (s.temperature(), s.cooling_rate()) });
                ensure!(r.as_ref().ok() == want.then_some(&(c.t, c.rate)) && strat(SelectionStrategy::Boltzmann(c.t, c.rate)) == want, "Boltzmann with temperature {} and rate {}: {r:?}", c.t, c.rate);
                let r = catch(|| { let mut s = BoltzmannSelection::new(1.5, 0.5); s.set_temperature(c.t); let a = (s.temperature(), s.cooling_rate()); s.set_cooling_rate(c.rate); (a, s.temperature(), s.cooling_rate()) });
                ensure!(r.as_ref().ok() == want.then_some(&((c.t, 0.5), c.t, c.rate)), "Boltzmann setters with {} and {}: {r:?}", c.t, c.rate);
                // Linear.
                let r = catch(|| { let mut s = LinearSelection::new(c.t); let a = s.bias(); s.set_bias(c.rate); (a, s.bias()) });
                ensure!(r == Ok((c.t, c.rate)), "linear bias {} then {}: {r:?}", c.t, c.rate);
                ensure!(strat(SelectionStrategy::RouletteWheel) && strat(SelectionStrategy::Rank) && strat(SelectionStrategy::Linear(c.t)), "a strategy without invalid parameters was rejected");
                Ok(())
            },
        }),
        Box::new(Exhaust {
            name: "defaults",
            rule: "documented defaults of both parameter sets and of the reproduction parameters, as values and in force during runs from default parameters; non-trivial: all",
            cases: |_| Box::new((0u64..48).map(|k| k)),
            check: |&seed, obs| {
                obs.nontrivial = true;
                let g = GeneticAlgorithmParameters::default();
                ensure!(
                    g.population_size == 100 && g.elitism_rate == 0.01 && g.crossover_rate == 0.8 && g.mutation_rate == 0.1 && g.selection_strategy == SelectionStrategy::RouletteWheel,
                    "GA defaults: {} {} {} {} {:?}", g.population_size, g.elitism_rate, g.crossover_rate, g.mutation_rate, g.selection_strategy
                );
                let a = AdaptiveGeneticAlgorithmParameters::default();
                ensure!(
                    a.population_size == 100 && a.elitism_rate == 0.01 && a.crossover_rate_range == (0.3..1.0) && a.mutation_rate_range == (0.1..1.0)
                        && a.selection_strategy == SelectionStrategy::RouletteWheel && a.parameter_adjustment_interval == 1,
                    "AGA defaults: {} {} {:?} {:?} {:?} {}", a.population_size, a.elitism_rate, a.crossover_rate_range, a.mutation_rate_range, a.selection_strategy, a.parameter_adjustment_interval
                );
                let mut r = ReproductionParameters::<breed::PlainBreed>::default();
                ensure!(r.crossover_rate == 0.8 && r.mutation_rate == 0.1, "reproduction defaults: {} {}", r.crossover_rate, r.mutation_rate);
                // The default selector is the roulette wheel.
                let fits: Vec<f64> = (0..2 + seed % 9).map(|i| (mix(seed ^ i) % 10) as f64 + 0.5).collect();
                let pop = Population::new(breed::members(&fits, 4));
                r.parent_selector.prepare(&pop);
                let mut counts = vec![0u64; pop.len()];
                let mut rng = TRng::new(seed);
                for _ in 0..20_000 {
                    counts[r.parent_selector.select(&pop, &mut rng).0] += 1;
                }
                let total: f64 = pop.iter().map(|i| i.fit).sum();
                let law: Vec<f64> = pop.iter().map(|i| i.fit / total).collect();
                stat::compare(&counts, &law, "default parent selector against fitness / total")?;
                ensure!(g.initial_population_size() == 100 && g.max_population_size() == 100 && a.initial_population_size() == 100 && a.max_population_size() == 100, "default population sizes are not 100");
                // In force.
                for adaptive in [false, true] {
                    let shared = evo::Shared::new(evo::ModelCfg { len: 12, alphabet: 3, ..evo::plain_cfg() });
                    let args = evo::GenArgs { shared: shared.clone() };
                    let model = <evo::TM as evo::Tm>::make(shared.clone());
                    let mut sizes = vec![];
                    let progress = |p: &Population<evo::TInd>| { sizes.push((p.len(), p.stats().std())); p.generation() < 4 };
                    evo::in_pool(1, seed, || if adaptive {
                        AdaptiveGeneticAlgorithm::build_evolution(model).run(&args, &AdaptiveGeneticAlgorithmParameters::default(), progress)
                    } else {
                        GeneticAlgorithm::build_evolution(model).run(&args, &GeneticAlgorithmParameters::default(), progress)
                    });
                    let ev = shared.events.lock().unwrap();
                    let created = ev.iter().filter(|e| matches!(e, evo::Ev::New(_))).count();
                    ensure!(created == 100, "{created} individuals were created by default");
                    let evaluated = evo::evals(&ev).len();
                    ensure!(evaluated == 100 + 4 * 99, "{evaluated} evaluations in four default generations instead of 100 + 4 x 99");
                    let rates: Vec<(f64, f64)> = ev.iter().filter_map(|e| if let evo::Ev::Hook { cx, mx, .. } = e { Some((f64::from_bits(*cx), f64::from_bits(*mx))) } else { None }).collect();
                    for (g, (x, m)) in rates.iter().enumerate() {
                        let want = if !adaptive { (0.8, 0.1) } else if g == 0 { (1.0, 0.1) } else {
                            let d = (sizes[g].1 / sizes[0].1).clamp(0.0, 1.0);
                            (0.3 + 0.7 * d, 0.1 + 0.9 * (1.0 - d))
                        };
                        ensure!((x - want.0).abs() < 1e-9 && (m - want.1).abs() < 1e-9, "default rates in generation {g} are {x} / {m} instead of {want:?}");
                    }
                }
                Ok(())
            },
        }),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SelParams {
    k: usize,
    q: u64,
    rate: f64,
    t: f64,
    seed: u64,
}

// ---------------------------------------------------------------- C24

const MUTATIONS: [MutationStrategy; 5] = [
    MutationStrategy::Swap,
    MutationStrategy::Scramble,
    MutationStrategy::Inversion,
    MutationStrategy::Insertion,
    MutationStrategy::Duplicate,
];

fn mutate_direct(k: usize, g: &mut [Gene], rng: &mut TRng) {
    match k {
        0 => swap_mutation(g, rng),
        1 => scramble_mutation(g, rng),
        2 => inversion_mutation(g, rng),
        3 => insertion_mutation(g, rng),
        _ => duplicate_mutation(g, rng),
    }
}

/// Order-preserving renaming of arbitrary genes.
fn renaming(p: &Pair, seed: u64) -> HashMap<u32, u32> {
    let order = sorted(&p.p1);
    let n = order.len() as u64;
    let mut next = mix(seed) % 1000;
    let room = (u32::MAX as u64 - 2000) / (n + 1);
    order
        .into_iter()
        .enumerate()
        .map(|(i, g)| {
            next += 1 + mix(seed ^ i as u64) % if i % 2 == 0 { 3 } else { room };
            (g, next as u32)
        })
        .collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SelDet {
    strategy: S,
    direct: bool,
    pops: Vec<Vec<f64>>,
    seed: u64,
}

fn c24_operators(c: &XCase, obs: &mut Obs) -> CheckResult {
    let (a, b) = (genes(&c.pair.p1), genes(&c.pair.p2));
    let map = renaming(&c.pair, c.seed);
    let ren = |v: &[Gene]| v.iter().map(|g| Gene(map[&g.0])).collect::<Vec<_>>();
    let (ra, rb) = (ren(&a), ren(&b));
    let start = TRng::scripted(c.seed, c.script.clone());
    for s in STRATS.iter().filter(|s| **s != CrossoverStrategy::EdgeRecombination) {
        let mut r0 = start.clone();
        let first = s.crossover(&a, &b, &mut r0);
        for _ in 0..3 {
            let mut r1 = start.clone();
            let again = s.crossover(&a, &b, &mut r1);
            ensure!(raw(&first) == raw(&again), "{s:?} of {:?} x {:?} gave {:?} and {:?} from the same generator state", c.pair.p1, c.pair.p2, raw(&first), raw(&again));
            ensure!(r0.fingerprint() == r1.fingerprint(), "{s:?} left the generator in different states");
        }
        let mut r2 = start.clone();
        let other = s.crossover(&ra, &rb, &mut r2);
        ensure!(raw(&ren(&first)) == raw(&other), "{s:?} of renamed parents gave {:?}, the renamed result is {:?}", raw(&other), raw(&ren(&first)));
        ensure!(r0.fingerprint() == r2.fingerprint(), "{s:?} left the generator in another state for renamed genes");
    }
    for (k, m) in MUTATIONS.iter().enumerate() {
        for direct in [false, true] {
            let go = |g: &[Gene]| {
                let mut r = start.clone();
                let mut g = g.to_vec();
                if direct { mutate_direct(k, &mut g, &mut r) } else { m.mutate(&mut g, &mut r) }
                (g, r.fingerprint())
            };
            let (x, fx) = go(&a);
            let (y, fy) = go(&a);
            ensure!(raw(&x) == raw(&y) && fx == fy, "{m:?} of {:?} gave {:?} and {:?} from the same generator state", c.pair.p1, raw(&x), raw(&y));
            let (z, fz) = go(&ra);
            ensure!(raw(&ren(&x)) == raw(&z) && fx == fz, "{m:?} of renamed genes gave {:?}, the renamed result is {:?}", raw(&z), raw(&ren(&x)));
        }
    }
    obs.nontrivial_if(c.pair.p1.len() >= 3 && c.pair.p1 != c.pair.p2);
    Ok(())
}

fn c24() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "crossover_and_mutation",
            rule: "every mutation and every crossover strategy except edge recombination, twice (crossover four times) from equal generator states, and once more on genes renamed by an order-preserving map: same (renamed) result and same generator state afterwards; non-trivial: parents differ, length >= 3",
            quick: 180_000,
            thorough: 7_200_000,
            strat: |_| xcase(120),
            check: c24_operators,
        }),
        Box::new(Prop {
            name: "long_genomes",
            rule: "the same for genomes of 120..1500 genes, unrelated or up to five edits apart; non-trivial: parents differ",
            quick: 120,
            thorough: 4_800,
            strat: |_| long_case(120, 1500, usize::MAX),
            check: |c, obs| c24_operators(&c.xcase(), obs),
        }),
        Box::new(Prop {
            name: "selection",
            rule: "two mechanisms of the same parameters prepared for the same one to three populations and given equal generator states: same selections, same state afterwards; non-trivial: at least two individuals",
            quick: 180_000,
            thorough: 7_200_000,
            strat: |_| (any_strategy(), any::<bool>(), vec(any_fitness(400), 1..4), any::<u64>()).prop_map(|(strategy, direct, pops, seed)| SelDet { strategy, direct, pops, seed }).boxed(),
            check: |c, obs| {
                let (mut s1, mut s2) = (c.strategy.build(c.direct), c.strategy.build(!c.direct));
                for f in &c.pops {
                    // Individuals of equal fitness may be stored in any order; compare on the same population.
                    let p1 = aged(mocks(f), c.seed ^ f.len() as u64);
                    s1.prepare(&p1);
                    s2.prepare(&p1);
                    let (mut r1, mut r2) = (TRng::new(c.seed), TRng::new(c.seed));
                    for k in 0..10 {
                        let (a, b) = (s1.select(&p1, &mut r1).0, s2.select(&p1, &mut r2).0);
                        ensure!(a == b, "{:?}: selection {k} gave {a} and {b} from equal generator states", c.strategy);
                        let x = &p1[a];
                        let (a, b) = (s1.select_distinct(&p1, &mut r1, 3, x).map(|x| x.0), s2.select_distinct(&p1, &mut r2, 3, x).map(|x| x.0));
                        ensure!(a == b, "{:?}: distinct selection {k} gave {a:?} and {b:?} from equal generator states", c.strategy);
                    }
                    ensure!(r1.fingerprint() == r2.fingerprint(), "{:?} left the generators in different states", c.strategy);
                    obs.nontrivial_if(p1.len() > 1);
                }
                obs.label(c.strategy.label());
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "breeding",
            rule: "eight breedings twice from equal generator states on the same population; non-trivial: at least two individuals",
            quick: 180_000,
            thorough: 7_200_000,
            strat: |_| breed::breed_case(),
            check: |c, obs| {
                fn go<M: breed::BreedModel>(c: &breed::BreedCase, pop: &Population<breed::BInd>) -> (Vec<breed::BInd>, [u64; 2]) {
                    let (sel, _) = c.sel.make(pop);
                    let params = ReproductionParameters { crossover_rate: c.cx, mutation_rate: c.mx, parent_selector: Box::new(sel) };
                    let model = M::make(breed::BModel { cfg: c.cfg.clone(), log: None });
                    let mut rng = TRng::scripted(c.seed, c.script.clone());
                    let v = (0..c.times).map(|_| model.breed(pop, &params, &mut rng)).collect();
                    (v, rng.fingerprint())
                }
                let pop = aged(breed::members(&c.fits, c.len), c.seed);
                let (a, b) = if c.over { (go::<breed::OverBreed>(c, &pop), go::<breed::OverBreed>(c, &pop)) } else { (go::<breed::PlainBreed>(c, &pop), go::<breed::PlainBreed>(c, &pop)) };
                for (x, y) in a.0.iter().zip(&b.0) {
                    ensure!(x.same(y), "breeding gave {x:?} and {y:?} from equal generator states");
                }
                ensure!(a.1 == b.1, "breeding left the generators in different states");
                obs.nontrivial_if(pop.len() > 1);
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "whole_runs",
            rule: "every algorithm and start on one worker thread with seeded generators, three times: the same events, populations and result; non-trivial: at least one generation bred",
            quick: 36_000,
            thorough: 1_440_000,
            strat: |_| evo::evo_case(true).prop_map(|mut c: EvoCase| { c.threads = 1; c }).boxed(),
            check: |c, obs| {
                let a = evo::run_case(c);
                for _ in 0..2 {
                    let b = evo::run_case(c);
                    evo::same_trace(&b, &a).map_err(|m| format!("a repeated run: {m}"))?;
                }
                obs.nontrivial_if(a.snaps.len() > 1);
                Ok(())
            },
        }),
    ]
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lerp {
    a: f64,
    b: f64,
    r1: f64,
    r2: f64,
    ua: u64,
    ub: u64,
}

fn ratio() -> BoxedStrategy<f64> {
    prop_oneof![
        1 => Just(0.0),
        1 => Just(1.0),
        4 => 0.0f64..=1.0,
        2 => (0u32..=100).prop_map(|k| k as f64 / 100.0),
        2 => (0u32..64, 1u32..64).prop_map(|(a, b)| a.min(b) as f64 / b as f64),
        1 => Just(1.0 - f64::EPSILON / 2.0),
        1 => Just(f64::MIN_POSITIVE),
        1 => Just(0.5),
        2 => (any::<bool>(), wide_f64(-18, 0)).prop_map(|(b, x)| if b { 1.0 - x.min(1.0) } else { x.min(1.0) }),
    ]
    .boxed()
}

fn c25() -> Vec<Box<dyn Sub>> {
    let num = || prop_oneof![2 => Just(0.0), 2 => Just(1.0), 3 => -10.0f64..10.0, 3 => (any::<bool>(), wide_f64(-300, 300)).prop_map(|(s, x)| if s { -x } else { x }), 2 => 0.0f64..=1.0];
    let _ = num;
    vec![Box::new(Prop {
        name: "interpolation",
        rule: "finite bounds of any sign and size (also equal), integer bounds up to 2^52, ratios 0, 1, k/100, a/b, extreme, close to either end and random; both forms against the exact line and against each other for two ratios; non-trivial: bounds differ and a ratio is strictly between 0 and 1",
        quick: 6_000_000,
        thorough: 240_000_000,
        strat: |_| {
            let num = || prop_oneof![2 => Just(0.0), 2 => Just(1.0), 3 => -10.0f64..10.0, 3 => (any::<bool>(), wide_f64(-300, 300)).prop_map(|(s, x)| if s { -x } else { x }), 2 => 0.0f64..=1.0];
            let int = || prop_oneof![3 => 0u64..5, 3 => 0u64..200, 2 => 0u64..100_000, 1 => 0u64..1 << 52];
            (num(), num(), ratio(), ratio(), int(), int()).prop_map(|(x, y, p, q, m, n)| Lerp { a: f64::min(x, y), b: f64::max(x, y), r1: f64::min(p, q), r2: f64::max(p, q), ua: m.min(n), ub: m.max(n) }).boxed()
        },
        check: |c, obs| {
            let slack = 4.0 * f64::EPSILON * (c.a.abs() + c.b.abs());
            let f = |r: f64| interpolate_f64(c.a, c.b, r);
            ensure!((f(0.0) - c.a).abs() <= slack && (f(1.0) - c.b).abs() <= slack, "interpolation of {}..{} has end points {} and {}", c.a, c.b, f(0.0), f(1.0));
            if c.a == 0.0 || c.a == c.b {
                ensure!(f(0.0) == c.a && f(1.0) == c.b, "interpolation of {}..{} has end points {} and {}", c.a, c.b, f(0.0), f(1.0));
            }
            for r in [c.r1, c.r2] {
                let want = c.a * (1.0 - r) + c.b * r;
                let got = f(r);
                ensure!((got - want).abs() <= slack, "interpolation of {}..{} at {r} is {got} instead of {want}", c.a, c.b);
                ensure!(got >= c.a - slack && got <= c.b + slack, "interpolation of {}..{} at {r} leaves the bounds: {got}", c.a, c.b);
            }
            ensure!(f(c.r1) <= f(c.r2) + slack, "interpolation of {}..{} falls between {} and {}", c.a, c.b, c.r1, c.r2);
            let (a, b) = (c.ua as usize, c.ub as usize);
            let u = |r: f64| interpolate_usize(a, b, r);
            ensure!(u(0.0) == a && u(1.0) == b, "integer interpolation of {a}..{b} has end points {} and {}", u(0.0), u(1.0));
            for r in [c.r1, c.r2] {
                let x = a as f64 + (b - a) as f64 * r;
                let got = u(r);
                let eps = 8.0 * f64::EPSILON * (1.0 + b as f64);
                ensure!(got >= a && got <= b, "integer interpolation of {a}..{b} at {r} leaves the bounds: {got}");
                let near = (x - x.round()).abs() <= eps;
                let ok = got as f64 == x.floor() || near && ((got as f64) == x.round() || got as f64 == x.round() - 1.0) || eps > 0.4 && (got as f64 - x).abs() <= 2.0 + eps;
                ensure!(ok, "integer interpolation of {a}..{b} at {r} is {got}, the line is at {x}");
            }
            ensure!(u(c.r1) <= u(c.r2), "integer interpolation of {a}..{b} falls between {} and {}", c.r1, c.r2);
            obs.nontrivial_if(c.a < c.b && c.r1 > 0.0 && c.r2 < 1.0);
            Ok(())
        },
    })]
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BitsCase {
    a: Vec<bool>,
    b: Vec<bool>,
    seed: u64,
}
/// A number of bits and a seed for all further choices.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bits {
    n: usize,
    seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OneMaxRun {
    len: usize,
    size: usize,
    adaptive: bool,
    start: u8,
    strategy: S,
    elitism: f64,
    cx: f64,
    mx: f64,
    gens: usize,
    seed: u64,
}

fn one_max_ok(i: &OneMax, len: usize, what: &str) -> CheckResult {
    ensure!(i.genome().len() == len, "{what}: {} bits instead of {len}", i.genome().len());
    let want = i.genome().iter().filter(|b| **b).count() as f64 / len as f64;
    ensure!((i.fitness() - want).abs() <= f64::EPSILON, "{what}: fitness {} instead of {want} for {len} bits", i.fitness());
    Ok(())
}

fn c26() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "operators",
            rule: "crossover, mutation and evaluation of the OneMax model on generated bit strings of 1..300 bits; non-trivial: at least two bits and different parents",
            quick: 2_250_000,
            thorough: 90_000_000,
            strat: |_| prop_oneof![3 => 1usize..9, 3 => 1usize..70, 1 => 60usize..300].prop_flat_map(|n| {
                let bits = move || prop_oneof![3 => vec(any::<bool>(), n), 1 => Just(vec![true; n]), 1 => Just(vec![false; n])];
                (bits(), bits(), any::<u64>())
            }).prop_map(|(a, b, seed)| BitsCase { a, b, seed }).boxed(),
            check: |c, obs| {
                let m = OneMaxEvolutionModel;
                let n = c.a.len();
                let (mut a, b) = (OneMax::from(c.a.clone()), OneMax::from(c.b.clone()));
                ensure!(a.genome() == &c.a[..], "conversion changed the bits");
                m.evaluate(&mut a);
                one_max_ok(&a, n, "evaluation")?;
                ensure!(a.genome() == &c.a[..], "evaluation changed the bits");
                let mut rng = SmallRng::seed_from_u64(c.seed);
                for _ in 0..4 {
                    let child = m.crossover(&a, &b, &mut rng);
                    let g = child.genome();
                    ensure!(g.len() == n, "crossover of {n} bits gave {}", g.len());
                    ensure!((0..=n).any(|k| g[..k] == c.a[..k] && g[k..] == c.b[k..]), "crossover of {:?} and {:?} gave {g:?}", c.a, c.b);
                    let mut x = a.clone();
                    m.mutate(&mut x, &mut rng);
                    let d = x.genome().iter().zip(&c.a).filter(|(p, q)| p != q).count();
                    ensure!(x.genome().len() == n && d <= 1, "mutation changed {d} of {n} bits");
                    m.evaluate(&mut x);
                    one_max_ok(&x, n, "evaluation after mutation")?;
                }
                obs.nontrivial_if(n >= 2 && c.a != c.b);
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "random_individuals",
            rule: "600..6000 random individuals of 0..80 (sometimes 3000) bits: length, frequency of ones at every position, of equal bits at distance 1, a power of two and a random distance, and of equal bits in consecutive individuals; non-trivial: at least two bits",
            quick: 5_000,
            thorough: 200_000,
            strat: |_| (prop_oneof![20 => 0usize..80, 1 => 80usize..3000], any::<u64>()).prop_map(|(n, seed)| Bits { n, seed }).boxed(),
            check: |c, obs| {
                let n = c.n;
                let draws = (300_000 / n.max(1)).clamp(600, 6000) as u64;
                let mut rng = SmallRng::seed_from_u64(c.seed);
                let lags = [1, 1 << (mix(c.seed) % 12), 1 + mix(c.seed + 1) as usize % n.max(2)];
                let mut ones = vec![0u64; n];
                let mut again = vec![0u64; n];
                let mut equal = vec![[0u64; 3]; n];
                let mut last: Option<OneMax> = None;
                for _ in 0..draws {
                    let i = OneMax::new_random(&n, &mut rng);
                    ensure!(i.genome().len() == n, "{} random bits instead of {n}", i.genome().len());
                    for k in 0..n {
                        let bit = i.genome()[k];
                        ones[k] += bit as u64;
                        again[k] += last.as_ref().is_some_and(|l| l.genome()[k] == bit) as u64;
                        for (e, lag) in equal[k].iter_mut().zip(lags) {
                            *e += (k + lag < n && i.genome()[k + lag] == bit) as u64;
                        }
                    }
                    last = Some(i);
                }
                for k in 0..n {
                    ensure!(stat::binom_ok(ones[k], draws, 0.5), "bit {k} of {n} is one in {} of {draws} random individuals", ones[k]);
                    ensure!(stat::binom_ok(again[k], draws - 1, 0.5), "bit {k} of {n} repeats in {} of {} consecutive random individuals", again[k], draws - 1);
                    for (e, lag) in equal[k].iter().zip(lags) {
                        ensure!(k + lag >= n || stat::binom_ok(*e, draws, 0.5), "bits {k} and {} of {n} are equal in {e} of {draws} random individuals", k + lag);
                    }
                }
                obs.nontrivial_if(n >= 2);
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "long_genomes",
            rule: "evaluation, crossover and mutation of OneMax individuals of 300..6000 (sometimes 70000) bits; non-trivial: all",
            quick: 12_000,
            thorough: 480_000,
            strat: |_| (prop_oneof![20 => 300usize..6000, 1 => 65_000usize..70_000], any::<u64>()).prop_map(|(n, seed)| Bits { n, seed }).boxed(),
            check: |c, obs| {
                let (m, n) = (OneMaxEvolutionModel, c.n);
                let mut rng = SmallRng::seed_from_u64(c.seed);
                let dense = c.seed % 3;
                let make = |k: u64| (0..n as u64).map(|i| match dense { 0 => mix(k ^ i << 8) & 1 == 1, 1 => mix(k ^ i << 8) % 50 != 0, _ => i % 2 == k % 2 }).collect::<Vec<bool>>();
                let (x, y) = (make(c.seed), make(c.seed + 1));
                let (mut a, b) = (OneMax::from(x.clone()), OneMax::from(y.clone()));
                m.evaluate(&mut a);
                one_max_ok(&a, n, "evaluation")?;
                ensure!(a.genome() == &x[..], "evaluation changed the bits");
                let child = m.crossover(&a, &b, &mut rng);
                let g = child.genome();
                // The longest prefix shared with the first parent can only be longer than the one copied.
                let k = g.iter().zip(&x).take_while(|(p, q)| p == q).count();
                let tail = g.iter().rev().zip(y.iter().rev()).take_while(|(p, q)| p == q).count();
                ensure!(g.len() == n && k + tail >= n, "crossover of {n} bits kept {k} leading bits of the first and {tail} trailing bits of the second parent");
                let mut z = a.clone();
                m.mutate(&mut z, &mut rng);
                let d = z.genome().iter().zip(&x).filter(|(p, q)| p != q).count();
                ensure!(z.genome().len() == n && d <= 1, "mutation changed {d} of {n} bits");
                m.evaluate(&mut z);
                one_max_ok(&z, n, "evaluation after mutation")?;
                obs.nontrivial = true;
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "variation_laws",
            rule: "20000 (60 per bit above 333 bits) crossovers and mutations of OneMax individuals of 1..60 (sometimes 2000) bits, the split point and the copied bit against their even laws, and the first outputs of eight generators the model creates; non-trivial: at least two bits",
            quick: 1_500,
            thorough: 60_000,
            strat: |_| (prop_oneof![20 => 1usize..60, 1 => 60usize..2000], any::<u64>()).prop_map(|(n, seed)| Bits { n, seed }).boxed(),
            check: |c, obs| {
                let (m, n) = (OneMaxEvolutionModel, c.n);
                // Enough to miss a single outcome of probability 1/n that never occurs.
                let draws = 20_000.max(60 * n);
                let mut rng = SmallRng::seed_from_u64(c.seed);
                let (zeros, ones) = (OneMax::from(vec![false; n]), OneMax::from(vec![true; n]));
                let mut counts = vec![0u64; n];
                for _ in 0..draws {
                    let child = m.crossover(&zeros, &ones, &mut rng);
                    let k = child.genome().iter().filter(|x| !**x).count();
                    ensure!(k < n, "a crossover of {n} bits took nothing from the second parent");
                    counts[k] += 1;
                }
                stat::compare(&counts, &vec![1.0 / n as f64; n], &format!("split point of a OneMax crossover of {n} bits"))?;
                if n >= 2 {
                    // One true bit at `at`: it is copied somewhere, overwritten (last outcome), or untouched.
                    let at = match c.seed >> 61 { 0 | 1 => 0, 2 | 3 => n - 1, _ => mix(c.seed) as usize % n };
                    let mut bits = vec![false; n];
                    bits[at] = true;
                    let one = OneMax::from(bits);
                    let mut counts = vec![0u64; n + 1];
                    for _ in 0..draws {
                        let mut x = one.clone();
                        m.mutate(&mut x, &mut rng);
                        let set: Vec<usize> = (0..n).filter(|i| x.genome()[*i]).collect();
                        match set[..] {
                            [] => counts[n] += 1,
                            [i] if i == at => counts[at] += 1,
                            [i, j] if i == at || j == at => counts[i + j - at] += 1,
                            _ => return Err(format!("a mutation of a single one at {at} of {n} bits gave ones at {set:?}")),
                        }
                    }
                    let p = 1.0 / n as f64;
                    let law: Vec<f64> = (0..=n).map(|i| if i == n { p } else if i == at { 1.0 - 2.0 * p } else { p / (n - 1) as f64 }).collect();
                    stat::compare(&counts, &law, &format!("where a mutation of {n} bits copies a single one at {at} ({n}: overwritten)"))?;
                }
                let firsts: std::collections::HashSet<u64> = (0..8).map(|_| rand::RngCore::next_u64(&mut OneMaxEvolutionModel::rng())).collect();
                ensure!(firsts.len() == 8, "eight generators created by the model start with {} different numbers", firsts.len());
                obs.nontrivial_if(n >= 2);
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "variation_laws_huge",
            rule: "2000 crossovers and mutations of OneMax individuals of 2000..70000 bits: quarter of the split point, and quarters of the copied and of the overwritten bit; non-trivial: all",
            quick: 64,
            thorough: 2_560,
            strat: |_| (prop_oneof![2 => 2000usize..66_000, 1 => 65_500usize..70_000], any::<u64>()).prop_map(|(n, seed)| Bits { n, seed }).boxed(),
            check: |c, obs| {
                let (m, n) = (OneMaxEvolutionModel, c.n);
                let draws = 2000;
                let quarter = |i: usize| i * 4 / n;
                let mut share = [0.0; 4];
                (0..n).for_each(|i| share[quarter(i)] += 1.0 / n as f64);
                let mut rng = SmallRng::seed_from_u64(c.seed);
                let (zeros, ones) = (OneMax::from(vec![false; n]), OneMax::from(vec![true; n]));
                let mut counts = [0u64; 4];
                for _ in 0..draws {
                    let child = m.crossover(&zeros, &ones, &mut rng);
                    let k = child.genome().iter().take_while(|x| !**x).count();
                    ensure!(k < n && child.genome()[k..].iter().all(|x| *x), "a crossover of {n} zeros and {n} ones gave neither's tail from bit {k}");
                    counts[quarter(k)] += 1;
                }
                stat::compare(&counts, &share, &format!("split point of a OneMax crossover of {n} bits, in quarters"))?;
                // Ones in one quarter: copied out of it (where to), overwritten in it, or no change.
                let q = (c.seed >> 62) as usize;
                let bits: Vec<bool> = (0..n).map(|i| quarter(i) == q).collect();
                let one = OneMax::from(bits.clone());
                let mut counts = [0u64; 5];
                for _ in 0..draws {
                    let mut x = one.clone();
                    m.mutate(&mut x, &mut rng);
                    let k = x.genome().iter().zip(&bits).position(|(p, q)| p != q);
                    counts[k.map_or(4, quarter)] += 1;
                }
                let both = n as f64 / (n - 1) as f64;
                let mut law = [0.0; 5];
                for k in 0..4 {
                    law[k] = share[k] * both * if k == q { 1.0 - share[q] } else { share[q] };
                }
                law[4] = 1.0 - law[..4].iter().sum::<f64>();
                stat::compare(&counts, &law, &format!("changed bit of a mutation of {n} bits with ones in quarter {q} (4: none)"))?;
                obs.nontrivial = true;
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "runs",
            rule: "OneMax runs of GA and AGA from every kind of start: length and fitness of every individual of every population and of the result; non-trivial: at least one generation",
            quick: 90_000,
            thorough: 3_600_000,
            strat: |_| (prop_oneof![2 => 1usize..6, 3 => 2usize..60, 1 => 60usize..200], 1usize..50, any::<bool>(), 0u8..3, any_strategy(), ratio01(), evo::rate(), evo::rate(), 0usize..15, any::<u64>())
                .prop_map(|(len, size, adaptive, start, strategy, elitism, cx, mx, gens, seed)| OneMaxRun { len, size, adaptive, start, strategy: match strategy { S::T(k) => S::T(k.min(20)), s => s }, elitism, cx, mx, gens, seed }).boxed(),
            check: |c, obs| {
                let bits = |k: u64| (0..c.len).map(|i| mix(c.seed ^ mix(k << 20 | i as u64)) & 1 == 1).collect::<Vec<bool>>();
                let mut bad: CheckResult = Ok(());
                let mut calls = 0;
                let progress = |p: &Population<OneMax>| {
                    calls += 1;
                    for i in p.iter() {
                        if bad.is_ok() {
                            bad = one_max_ok(i, c.len, &format!("generation {}", p.generation()));
                        }
                    }
                    p.generation() < c.gens
                };
                fn go<A: EvolutionAlgorithm<OneMaxEvolutionModel>>(e: Evolution<A, OneMaxEvolutionModel>, p: &A::Parameters, c: &OneMaxRun, bits: impl Fn(u64) -> Vec<bool>, progress: impl FnMut(&Population<OneMax>) -> bool) -> Vec<OneMax> {
                    match c.start {
                        0 => vec![e.run(&c.len, p, progress)],
                        1 => vec![e.evolve_individual(bits(0).into(), p, progress)],
                        _ => e.evolve_population((0..c.size as u64).map(|k| bits(k).into()).collect(), p, progress).into(),
                    }
                }
                let result = evo::in_pool(1 + (c.seed % 2) as usize, c.seed, || if c.adaptive {
                    let p = AdaptiveGeneticAlgorithmParameters { population_size: c.size, elitism_rate: c.elitism, crossover_rate_range: 0.0..c.cx, mutation_rate_range: c.mx.min(0.5)..c.mx.max(0.5), selection_strategy: c.strategy.strategy(), parameter_adjustment_interval: 1 };
                    go(AdaptiveGeneticAlgorithm::build_evolution(OneMaxEvolutionModel), &p, c, bits, progress)
                } else {
                    let p = GeneticAlgorithmParameters { population_size: c.size, elitism_rate: c.elitism, crossover_rate: c.cx, mutation_rate: c.mx, selection_strategy: c.strategy.strategy() };
                    go(GeneticAlgorithm::build_evolution(OneMaxEvolutionModel), &p, c, bits, progress)
                });
                bad?;
                ensure!(calls == c.gens + 1, "{calls} progress calls instead of {}", c.gens + 1);
                for i in &result {
                    one_max_ok(i, c.len, "result")?;
                }
                obs.nontrivial_if(c.gens > 0);
                Ok(())
            },
        }),
    ]
}

// ---------------------------------------------------------------- C27

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WrapCase {
    fits: Vec<f64>,
    edits: Vec<(u16, f64)>,
    /// Which fitness values become infinite.
    infinite: Option<(u64, u64)>,
}

#[derive(Clone, Debug, PartialEq)]
struct WInd {
    payload: Vec<u32>,
    fit: f64,
}
impl Individual for WInd {
    fn fitness(&self) -> f64 {
        self.fit
    }
    fn is_valid(&self) -> bool {
        self.payload[0] % 4 != 1
    }
}

fn c27() -> Vec<Box<dyn Sub>> {
    vec![Box::new(Prop {
        name: "wrappers",
        rule: "lists of 1..40 individuals, some of them declared invalid by their type, with finite and sometimes infinite fitness (ties, signed zeros, huge, negative): comparison of every pair, sorting, maximum and minimum (of lists and pairs), clamping, priority queue, editing through the wrapper and unwrapping; non-trivial: at least two different fitness values",
        quick: 1_200_000,
        thorough: 48_000_000,
        strat: |_| (any_fitness(40), vec((any::<u16>(), -5.0f64..5.0), 0..3), prop::option::weighted(0.1, (any::<u64>(), any::<u64>()))).prop_map(|(fits, edits, infinite)| WrapCase { fits, edits, infinite }).boxed(),
        check: |c, obs| {
            let mut fits = c.fits.clone();
            if let Some((a, b)) = c.infinite {
                for (k, x) in fits.iter_mut().enumerate() {
                    match (a >> (k % 64) & 1, b >> (k % 64) & 1) { (1, 1) => *x = f64::INFINITY, (1, 0) if a % 3 == 0 => *x = f64::NEG_INFINITY, _ => {} }
                }
            }
            let mut plain: Vec<WInd> = fits.iter().enumerate().map(|(k, &fit)| WInd { payload: vec![k as u32, 7], fit }).collect();
            let mut wrapped: Vec<IndividualWrapper<WInd>> = plain.iter().cloned().map(IndividualWrapper::from).collect();
            for &(k, x) in &c.edits {
                let k = k as usize % plain.len();
                plain[k].fit = x;
                plain[k].payload.push(k as u32);
                wrapped[k].fit = x;
                wrapped[k].payload.push(k as u32);
            }
            for (w, p) in wrapped.iter().zip(&plain) {
                ensure!(**w == *p && w.fitness() == p.fit && w.is_valid() == p.is_valid(), "reading through the wrapper gives {:?} instead of {p:?}", w.payload);
            }
            let name = |o: Option<std::cmp::Ordering>| format!("{o:?}");
            for (x, p) in wrapped.iter().zip(&plain) {
                for (y, q) in wrapped.iter().zip(&plain) {
                    let want = p.fit.partial_cmp(&q.fit).unwrap();
                    ensure!(
                        x.partial_cmp(y) == Some(want) && x.cmp(y) == want && compare_fitness(p, q) == want,
                        "fitness {} and {} compare as {} / {:?} / {:?}", p.fit, q.fit, name(x.partial_cmp(y)), x.cmp(y), compare_fitness(p, q)
                    );
                    ensure!((x == y) == (p.fit == q.fit) && (x != y) == (p.fit != q.fit), "equality of fitness {} and {}", p.fit, q.fit);
                    ensure!((x < y) == (p.fit < q.fit) && (x <= y) == (p.fit <= q.fit) && (x > y) == (p.fit > q.fit) && (x >= y) == (p.fit >= q.fit), "comparison operators of fitness {} and {}", p.fit, q.fit);
                }
            }
            let key = |v: &[WInd]| { let mut v: Vec<(u64, Vec<u32>)> = v.iter().map(|i| (i.fit.to_bits(), i.payload.clone())).collect(); v.sort(); v };
            let wrap = |v: &[WInd]| v.iter().cloned().map(IndividualWrapper::from).collect::<Vec<_>>();
            let top = plain.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
            let max = wrap(&plain).into_iter().max().unwrap().take();
            ensure!(max.fit == top, "the maximum has fitness {} instead of {top}", max.fit);
            let bottom = plain.iter().map(|i| i.fit).fold(f64::INFINITY, f64::min);
            let min = wrap(&plain).into_iter().min().unwrap().take();
            ensure!(min.fit == bottom, "the minimum has fitness {} instead of {bottom}", min.fit);
            let one = |p: &WInd| IndividualWrapper::from(p.clone());
            for (p, q) in plain.iter().zip(plain.iter().skip(1)) {
                let (greater, lesser) = (one(p).max(one(q)).take(), one(p).min(one(q)).take());
                ensure!((&greater == p || &greater == q) && greater.fit == p.fit.max(q.fit), "the greater of fitness {} and {} has fitness {}", p.fit, q.fit, greater.fit);
                ensure!((&lesser == p || &lesser == q) && lesser.fit == p.fit.min(q.fit), "the lesser of fitness {} and {} has fitness {}", p.fit, q.fit, lesser.fit);
                let (low, high) = if p.fit <= q.fit { (p, q) } else { (q, p) };
                let r = &plain[plain.len() / 2];
                let clamped = one(r).clamp(one(low), one(high)).take();
                ensure!([low, high, r].contains(&&clamped) && clamped.fit == r.fit.clamp(low.fit, high.fit), "fitness {} clamped to {}..={} has fitness {}", r.fit, low.fit, high.fit, clamped.fit);
            }
            let mut s = wrap(&plain);
            s.sort();
            let s: Vec<WInd> = s.into_iter().map(IndividualWrapper::take).collect();
            ensure!(s.windows(2).all(|w| w[0].fit <= w[1].fit) && key(&s) == key(&plain), "sorting wrapped individuals");
            let mut heap: BinaryHeap<IndividualWrapper<WInd>> = wrap(&plain).into_iter().collect();
            let mut popped = vec![];
            while let Some(x) = heap.pop() {
                popped.push(x.take());
            }
            ensure!(popped.windows(2).all(|w| w[0].fit >= w[1].fit) && key(&popped) == key(&plain), "a priority queue gave fitness values {:?}", popped.iter().map(|i| i.fit).collect::<Vec<_>>());
            let back: Vec<WInd> = wrapped.into_iter().map(IndividualWrapper::take).collect();
            ensure!(key(&back) == key(&plain) && back == plain, "unwrapping changed an individual");
            obs.nontrivial_if(c.fits.iter().any(|f| *f != c.fits[0]));
            obs.label_if(fits.iter().any(|f| f.is_infinite()), "infinite fitness");
            Ok(())
        },
    })]
}
