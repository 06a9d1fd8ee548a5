//! C12-C17: crossovers, adjacency helpers, mutations, random helpers.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::stat;
use proptest::collection::vec;
use proptest::prelude::*;
use rusty_genes::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::ops::Range;
use rand::seq::SliceRandom;
use rand::Rng as _;

pub const STRATS: [CrossoverStrategy; 7] = [
    CrossoverStrategy::GeneralizedPartition2,
    CrossoverStrategy::SequentialConstructive,
    CrossoverStrategy::EdgeRecombination,
    CrossoverStrategy::PartiallyMapped,
    CrossoverStrategy::Order,
    CrossoverStrategy::Cycle,
    CrossoverStrategy::SinglePoint,
];

pub fn subs(prop: &str) -> Option<(Vec<Box<dyn Sub>>, &'static [&'static str])> {
    let v: Vec<Box<dyn Sub>> = match prop {
        "C12" => c12(),
        "C13" => c13(),
        "C14" => c14(),
        "C15" => c15(),
        "C16" => c16(),
        "C17" => c17(),
        "C29" => c29(),
        _ => return None,
    };
    Some((
        v,
        &[
            "both parents are permutations of the same distinct genes (documented domain), except for single-point crossover",
            "bounded work: more than 20000+60(n+4)^3 gene comparisons counts as non-termination",
        ],
    ))
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct XCase {
    pub pair: Pair,
    pub pivot: u16,
    pub cut: (u16, u16),
    pub picks: Vec<u16>,
    pub seed: u64,
    pub script: Vec<u64>,
}

pub fn xcase(max: usize) -> BoxedStrategy<XCase> {
    (
        perm_pair(max),
        any::<u16>(),
        (any::<u16>(), any::<u16>(), 0u8..8),
        vec(any::<u16>(), 0..6),
        any::<u64>(),
        vec(any::<u64>(), 0..3),
    )
        .prop_map(|(pair, pivot, (a, b, k), picks, seed, script)| {
            let n = pair.p1.len() as u16;
            let cut = match k {
                0 => (0, n),
                1 => (a, a),
                2 => (0, b % (n + 1)),
                3 => (a % (n + 1), n),
                _ => (a, b),
            };
            XCase { pair, pivot, cut, picks, seed, script }
        })
        .boxed()
}

impl XCase {
    fn n(&self) -> usize {
        self.pair.p1.len()
    }
    fn range(&self) -> Range<usize> {
        let m = self.n() + 1;
        let (a, b) = (self.cut.0 as usize % m, self.cut.1 as usize % m);
        a.min(b)..a.max(b)
    }
    fn pivot(&self) -> Option<u32> {
        (self.n() > 0).then(|| self.pair.p1[self.pivot as usize % self.n()])
    }
    fn rng(&self) -> TRng {
        TRng::scripted(self.seed, self.script.clone())
    }
}

/// A long pair of parents, described by a seed instead of being spelled out.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongCase {
    pub n: usize,
    pub seed: u64,
    /// 0: unrelated parents; k: k random edits apart.
    pub edits: u8,
    pub lo: usize,
    pub len: usize,
    pub picks: Vec<u16>,
}

pub fn long_case(min: usize, max: usize, narrow: usize) -> BoxedStrategy<LongCase> {
    let size = prop_oneof![3 => min..=(min * 2).min(max), 2 => min..=max, 1 => Just(max)];
    (size, any::<u64>(), 0u8..6, any::<u32>(), any::<u32>(), vec(any::<u16>(), 0..6))
        .prop_map(move |(n, seed, edits, a, b, picks)| {
            let lo = a as usize % (n + 1);
            LongCase { n, seed, edits, lo, len: b as usize % (narrow.min(n - lo) + 1), picks }
        })
        .boxed()
}

impl LongCase {
    fn pair(&self) -> Pair {
        use rand::seq::SliceRandom;
        let mut rng = TRng::new(self.seed);
        let mut p1: Vec<u32> = (0..self.n as u32).collect();
        if self.seed % 3 > 0 {
            p1.shuffle(&mut rng);
        }
        let mut p2 = p1.clone();
        if self.edits == 0 {
            p2.shuffle(&mut rng);
        }
        for _ in 0..self.edits {
            let (a, b) = (rng.gen_range(0..self.n), rng.gen_range(0..self.n));
            let (a, b) = (a.min(b), a.max(b));
            match rng.gen_range(0..4) {
                0 => p2.swap(a, b),
                1 => p2[a..=b].reverse(),
                2 => p2[a..=b].rotate_left(1),
                _ => p2.rotate_left(a),
            }
        }
        Pair { p1, p2 }
    }
    fn range(&self) -> Range<usize> {
        self.lo..self.lo + self.len
    }
    pub fn xcase(&self) -> XCase {
        let end = (self.lo + self.len) as u16;
        XCase { pair: self.pair(), pivot: self.seed as u16, cut: (self.lo as u16, end), picks: self.picks.clone(), seed: self.seed, script: vec![] }
    }
}

/// A pair around 2^16 genes; unrelated parents only where every operator copes with them in reasonable time.
fn huge_case(unrelated: bool) -> BoxedStrategy<LongCase> {
    long_case(65_500, 70_000, usize::MAX)
        .prop_map(move |mut c| {
            if c.edits == 0 && !unrelated {
                c.edits = 1 + (c.seed % 5) as u8;
            }
            c
        })
        .boxed()
}

macro_rules! other_types {
    ($f:ident, $what:expr) => {
        Box::new(Prop {
            name: "other_gene_types",
            rule: concat!($what, " for pairs of length 0..40 of genes whose order is only partial, genes without an order that all have the same hash, and large genes; non-trivial: parents differ, length >= 3"),
            quick: 60_000,
            thorough: 2_400_000,
            strat: |_| xcase(40),
            check: |c, obs| {
                obs.nontrivial_if(differ(&c.pair));
                $f::<Point>(c)?;
                $f::<Name>(c)?;
                $f::<Wide>(c)
            },
        })
    };
}

fn run<T>(n: usize, what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch(|| with_fuel(fuel_for(n), f)).map_err(|p| format!("{what}: {p}"))
}

fn is_perm(child: &[Gene], p: &Pair, what: &str) -> CheckResult {
    let c = raw(child);
    ensure!(
        c.len() == p.p1.len() && sorted(&c) == sorted(&p.p1),
        "{what}: {:?} x {:?} gave {:?}, not a permutation of the parents' genes",
        p.p1,
        p.p2,
        c
    );
    Ok(())
}

fn differ(p: &Pair) -> bool {
    p.p1.len() >= 3 && p.p1 != p.p2
}

fn selector(picks: Vec<u16>) -> impl FnMut(Option<&Gene>, &[Vec<Gene>]) -> usize {
    let mut k = 0;
    move |_, parts| {
        let i = if picks.is_empty() { 0 } else { picks[k % picks.len()] as usize % parts.len() };
        k += 1;
        i
    }
}

// ---------------------------------------------------------------- C12

fn c12() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Exhaust {
            name: "closure_exhaustive",
            rule: "all parent pairs up to length 4 and identity x all permutations up to 6, every pivot, range and constant partition choice; non-trivial: parents differ, length >= 3",
            cases: |t| all_pairs(4, if t == Tier::Quick { 6 } else { 7 }),
            check: c12_all_args,
        }),
        Box::new(Prop {
            name: "closure_generated",
            rule: "generated permutation pairs (unrelated or edited copies) of length 0..250 with arbitrary pivot, range, partition choices and generator state, all operators direct and through strategies; non-trivial: parents differ, length >= 3",
            quick: 192_000,
            thorough: 7_680_000,
            strat: |_| xcase(250),
            check: c12_closure,
        }),
        Box::new(Prop {
            name: "closure_long",
            rule: "permutation pairs of length 250..1300, unrelated or up to five edits apart, all operators direct and through strategies; non-trivial: parents differ",
            quick: 240,
            thorough: 9_600,
            strat: |_| long_case(250, 1300, usize::MAX),
            check: |c, obs| c12_closure(&c.xcase(), obs),
        }),
        Box::new(Prop {
            name: "closure_huge",
            rule: "permutation pairs of length 65500..70000, unrelated or up to five edits apart, one operator each (all but ERX), PMX and OX with any range, direct or through the strategy; non-trivial: parents differ",
            quick: 32,
            thorough: 1_280,
            strat: |_| huge_case(true),
            check: c12_huge,
        }),
        Box::new(Prop {
            name: "identical_parents",
            rule: "a generated permutation crossed with itself by every operator; non-trivial: length >= 3",
            quick: 48_000,
            thorough: 1_920_000,
            strat: |_| xcase(150).prop_map(|mut c| { c.pair.p2 = c.pair.p1.clone(); c }).boxed(),
            check: c12_identical,
        }),
        Box::new(Prop {
            name: "length_mismatch",
            rule: "parents of different lengths given to every operator and strategy; non-trivial: all",
            quick: 32_000,
            thorough: 1_280_000,
            strat: |_| (perm_pair(60), perm_pair(60), any::<u64>(), 0u8..3).prop_map(|(a, b, seed, kind)| {
                let p1 = a.p1;
                let mut p2 = b.p1;
                if kind == 0 { p2 = p1.clone(); p2.pop(); }
                if kind == 1 { p2 = p1.clone(); p2.push(p1.len() as u32 + 77_000); }
                if p1.len() == p2.len() { p2.push(p2.len() as u32 + 90_000); }
                Mismatch { p1, p2, seed }
            }).boxed(),
            check: c12_mismatch,
        }),
        other_types!(closed_for, "closure of all operators, direct and through strategies,"),
    ]
}

fn c12_all_args(p: &Pair, obs: &mut Obs) -> CheckResult {
    let n = p.p1.len();
    let (a, b) = (genes(&p.p1), genes(&p.p2));
    for &pivot in &a {
        is_perm(&run(n, "SCX", || sequential_constructive_crossover(&a, &b, pivot))?, p, "SCX")?;
        is_perm(&run(n, "ERX", || edge_recombination_crossover(&a, &b, pivot))?, p, "ERX")?;
    }
    for s in 0..=n {
        for e in s..=n {
            let c = run(n, &format!("PMX {s}..{e}"), || partially_mapped_crossover(&a, &b, s..e))?;
            is_perm(&c, p, &format!("PMX {s}..{e}"))?;
            let c = run(n, &format!("OX {s}..{e}"), || order_crossover(&a, &b, s..e))?;
            is_perm(&c, p, &format!("OX {s}..{e}"))?;
        }
    }
    is_perm(&run(n, "CX", || cycle_crossover(&a, &b))?, p, "CX")?;
    for k in 0..n.max(1) as u16 {
        for l in 0..2u16 {
            let c = run(n, "GPX2", || generalized_partition_2_crossover(&a, &b, selector(vec![k, l])))?;
            is_perm(&c, p, "GPX2")?;
        }
    }
    obs.nontrivial_if(differ(p));
    obs.label(format!("n={n}"));
    Ok(())
}

fn c12_closure(c: &XCase, obs: &mut Obs) -> CheckResult {
    let n = c.n();
    let (a, b) = (genes(&c.pair.p1), genes(&c.pair.p2));
    if let Some(pivot) = c.pivot().map(Gene) {
        is_perm(&run(n, "SCX", || sequential_constructive_crossover(&a, &b, pivot))?, &c.pair, "SCX")?;
        is_perm(&run(n, "ERX", || edge_recombination_crossover(&a, &b, pivot))?, &c.pair, "ERX")?;
    }
    let r = c.range();
    is_perm(&run(n, "PMX", || partially_mapped_crossover(&a, &b, r.clone()))?, &c.pair, &format!("PMX {r:?}"))?;
    is_perm(&run(n, "OX", || order_crossover(&a, &b, r.clone()))?, &c.pair, &format!("OX {r:?}"))?;
    is_perm(&run(n, "CX", || cycle_crossover(&a, &b))?, &c.pair, "CX")?;
    let g = run(n, "GPX2", || generalized_partition_2_crossover(&a, &b, selector(c.picks.clone())))?;
    is_perm(&g, &c.pair, "GPX2")?;
    let mut rng = c.rng();
    for s in &STRATS[..6] {
        let child = run(n, &format!("{s:?}"), || s.crossover(&a, &b, &mut rng))?;
        is_perm(&child, &c.pair, &format!("{s:?} strategy"))?;
    }
    let child = run(n, "SPX", || STRATS[6].crossover(&a, &b, &mut rng))?;
    ensure!(child.len() == n, "single point strategy changed the length");
    obs.nontrivial_if(differ(&c.pair));
    obs.label(size_label(n));
    obs.label_if(r.is_empty(), "empty range");
    Ok(())
}

fn c12_huge(c: &LongCase, obs: &mut Obs) -> CheckResult {
    let kind = (c.seed >> 8) as usize % 5;
    let Pair { p1, p2 } = match (kind, c.edits) {
        (4, 0) => LongCase { edits: 3, ..c.clone() }.pair(), // one partition per gene takes GPX2 too long
        _ => c.pair(),
    };
    let mut rng = TRng::new(c.seed);
    let strategies = [
        CrossoverStrategy::PartiallyMapped,
        CrossoverStrategy::Order,
        CrossoverStrategy::Cycle,
        CrossoverStrategy::SequentialConstructive,
        CrossoverStrategy::GeneralizedPartition2,
    ];
    let direct = c.seed & 1 == 0;
    let child = catch(|| match kind {
        _ if !direct => strategies[kind].crossover(&p1, &p2, &mut rng),
        0 => partially_mapped_crossover(&p1, &p2, c.range()),
        1 => order_crossover(&p1, &p2, c.range()),
        2 => cycle_crossover(&p1, &p2),
        3 => sequential_constructive_crossover(&p1, &p2, p1[c.lo % c.n]),
        _ => generalized_partition_2_crossover(&p1, &p2, |_, x| rng.gen_range(0..x.len())),
    })
    .map_err(|e| format!("{:?} of {} genes: {e}", strategies[kind], c.n))?;
    ensure!(sorted(&child) == sorted(&p1), "{:?} of {} genes (direct: {direct}) gave {} genes, no permutation", strategies[kind], c.n, child.len());
    obs.nontrivial_if(p1 != p2);
    obs.label(format!("{:?}", strategies[kind]));
    Ok(())
}

fn size_label(n: usize) -> String {
    match n {
        0..=2 => format!("n={n}"),
        3..=8 => "n=3..8".into(),
        9..=32 => "n=9..32".into(),
        33..=100 => "n=33..100".into(),
        _ => "n>100".into(),
    }
}

fn same_tour(a: &[u32], b: &[u32]) -> bool {
    let n = a.len();
    if n != b.len() {
        return false;
    }
    if n == 0 {
        return true;
    }
    let Some(k) = b.iter().position(|x| *x == a[0]) else { return false };
    (0..n).all(|i| a[i] == b[(k + i) % n]) || (0..n).all(|i| a[i] == b[(k + n - i) % n])
}

fn c12_identical(c: &XCase, obs: &mut Obs) -> CheckResult {
    let n = c.n();
    let p = &c.pair.p1;
    let a = genes(p);
    let b = a.clone();
    let r = c.range();
    let exact = [
        ("PMX", run(n, "PMX", || partially_mapped_crossover(&a, &b, r.clone()))?),
        ("OX", run(n, "OX", || order_crossover(&a, &b, r.clone()))?),
        ("CX", run(n, "CX", || cycle_crossover(&a, &b))?),
    ];
    for (w, child) in &exact {
        ensure!(&raw(child) == p, "{w} {r:?} of identical parents {p:?} gave {:?}", raw(child));
    }
    let mut tours = vec![];
    if let Some(pivot) = c.pivot().map(Gene) {
        tours.push(("SCX", run(n, "SCX", || sequential_constructive_crossover(&a, &b, pivot))?));
        tours.push(("ERX", run(n, "ERX", || edge_recombination_crossover(&a, &b, pivot))?));
    }
    tours.push(("GPX2", run(n, "GPX2", || generalized_partition_2_crossover(&a, &b, selector(c.picks.clone())))?));
    let mut rng = c.rng();
    for s in &STRATS[..6] {
        tours.push(("strategy", run(n, "strategy", || s.crossover(&a, &b, &mut rng))?));
    }
    for (w, child) in &tours {
        ensure!(same_tour(&raw(child), p), "{w} of identical parents {p:?} gave another tour {:?}", raw(child));
    }
    obs.nontrivial_if(n >= 3);
    obs.label(size_label(n));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mismatch {
    p1: Vec<u32>,
    p2: Vec<u32>,
    seed: u64,
}

fn c12_mismatch(c: &Mismatch, obs: &mut Obs) -> CheckResult {
    let (a, b) = (genes(&c.p1), genes(&c.p2));
    let n = a.len().max(b.len());
    let m = a.len().min(b.len());
    let mut rng = TRng::new(c.seed);
    let refused = |w: &str, r: Result<Vec<Gene>, String>| -> CheckResult {
        match r {
            Ok(v) => Err(format!("{w} accepted parents of lengths {} and {} and returned {:?}", c.p1.len(), c.p2.len(), raw(&v))),
            Err(e) if e.contains("bounded work") => Err(format!("{w}: {e}")),
            Err(_) => Ok(()),
        }
    };
    for s in &STRATS {
        refused(&format!("{s:?} strategy"), run(n, "", || s.crossover(&a, &b, &mut rng)))?;
    }
    refused("GPX2", run(n, "", || generalized_partition_2_crossover(&a, &b, |_, _| 0)))?;
    if let Some(&pivot) = a.first() {
        refused("SCX", run(n, "", || sequential_constructive_crossover(&a, &b, pivot)))?;
        refused("ERX", run(n, "", || edge_recombination_crossover(&a, &b, pivot)))?;
    }
    refused("PMX", run(n, "", || partially_mapped_crossover(&a, &b, 0..m)))?;
    refused("OX", run(n, "", || order_crossover(&a, &b, 0..m)))?;
    refused("CX", run(n, "", || cycle_crossover(&a, &b)))?;
    refused("SPX", run(n, "", || single_point_crossover(&a, &b, m)))?;
    refused("SPX", run(n, "", || single_point_crossover(&a, &b, m / 2)))?;
    obs.nontrivial = true;
    obs.label_if(c.p1.len() < c.p2.len(), "first shorter");
    obs.label_if(c.p1.len() > c.p2.len(), "first longer");
    Ok(())
}

// ---------------------------------------------------------------- C13

fn ref_pmx(p1: &[u32], p2: &[u32], r: Range<usize>) -> Vec<u32> {
    let map: HashMap<u32, u32> = r.clone().map(|i| (p1[i], p2[i])).collect();
    (0..p1.len())
        .map(|i| {
            if r.contains(&i) {
                return p1[i];
            }
            let mut g = p2[i];
            while let Some(&h) = map.get(&g) {
                g = h;
            }
            g
        })
        .collect()
}

fn ref_ox(p1: &[u32], p2: &[u32], r: Range<usize>) -> Vec<u32> {
    let n = p1.len();
    let keep: HashSet<u32> = p1[r.clone()].iter().copied().collect();
    let mut fill = (0..n).map(|k| p2[(r.end + k) % n]).filter(|g| !keep.contains(g));
    let mut child = p1.to_vec();
    for k in 0..n - r.len() {
        child[(r.end + k) % n] = fill.next().unwrap();
    }
    child
}

fn ref_cx(p1: &[u32], p2: &[u32]) -> Vec<u32> {
    let n = p1.len();
    let pos1: HashMap<u32, usize> = p1.iter().enumerate().map(|(i, g)| (*g, i)).collect();
    let mut cycle = vec![usize::MAX; n];
    let mut count = 0;
    for s in 0..n {
        if cycle[s] == usize::MAX {
            let mut i = s;
            while cycle[i] == usize::MAX {
                cycle[i] = count;
                i = pos1[&p2[i]];
            }
            count += 1;
        }
    }
    (0..n).map(|i| if cycle[i] % 2 == 0 { p1[i] } else { p2[i] }).collect()
}

fn expect(what: &str, p: &Pair, got: &[Gene], want: &[u32]) -> CheckResult {
    ensure!(
        raw(got) == want,
        "{what} of {:?} and {:?}: got {:?}, expected {:?}",
        p.p1,
        p.p2,
        raw(got),
        want
    );
    Ok(())
}

fn c13() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Exhaust {
            name: "reference_exhaustive",
            rule: "all parent pairs up to length 4, identity x all permutations up to 6, every range and point, PMX / OX / CX / SPX against independent references; non-trivial: parents differ, length >= 3",
            cases: |t| all_pairs(4, if t == Tier::Quick { 6 } else { 7 }),
            check: |p, obs| {
                let n = p.p1.len();
                let (a, b) = (genes(&p.p1), genes(&p.p2));
                for s in 0..=n {
                    for e in s..=n {
                        pmx_ox(p, &a, &b, s..e)?;
                    }
                }
                expect("CX", p, &run(n, "CX", || cycle_crossover(&a, &b))?, &ref_cx(&p.p1, &p.p2))?;
                for k in 0..n + 3 {
                    spx(&p.p1, &p.p2, k)?;
                }
                obs.nontrivial_if(differ(p));
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "reference_generated",
            rule: "generated permutation pairs of length 0..300 and arbitrary ranges against independent references; non-trivial: parents differ, length >= 3",
            quick: 900_000,
            thorough: 36_000_000,
            strat: |_| xcase(300),
            check: |c, obs| {
                let (a, b) = (genes(&c.pair.p1), genes(&c.pair.p2));
                let n = a.len();
                pmx_ox(&c.pair, &a, &b, c.range())?;
                expect("CX", &c.pair, &run(n, "CX", || cycle_crossover(&a, &b))?, &ref_cx(&c.pair.p1, &c.pair.p2))?;
                let mut rng = c.rng();
                let via = run(n, "CX", || CrossoverStrategy::Cycle.crossover(&a, &b, &mut rng))?;
                expect("CX strategy", &c.pair, &via, &ref_cx(&c.pair.p1, &c.pair.p2))?;
                obs.nontrivial_if(differ(&c.pair));
                obs.label(size_label(n));
                obs.label_if(c.range().start == 0, "range at start");
                obs.label_if(c.range().end == n, "range at end");
                obs.label_if(c.range().is_empty(), "empty range");
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "reference_long",
            rule: "permutation pairs of length 300..3000 and any range against the references; non-trivial: parents differ",
            quick: 600,
            thorough: 24_000,
            strat: |_| long_case(300, 3000, usize::MAX),
            check: |c, obs| {
                let p = c.pair();
                let (a, b) = (genes(&p.p1), genes(&p.p2));
                pmx_ox(&p, &a, &b, c.range())?;
                expect("CX", &p, &run(c.n, "CX", || cycle_crossover(&a, &b))?, &ref_cx(&p.p1, &p.p2))?;
                obs.nontrivial_if(differ(&p));
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "reference_huge",
            rule: "permutation pairs of length 65000..70000, PMX and OX with a range of at most 60 genes anywhere, single point anywhere; non-trivial: parents differ",
            quick: 80,
            thorough: 3_200,
            strat: |_| long_case(65_000, 70_000, 60),
            check: |c, obs| {
                let p = c.pair();
                let (a, b) = (genes(&p.p1), genes(&p.p2));
                pmx_ox(&p, &a, &b, c.range())?;
                spx(&p.p1, &p.p2, c.lo)?;
                obs.nontrivial_if(differ(&p));
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "reference_huge_ranges",
            rule: "permutation pairs of length 65500..70000, one of PMX and OX with any range, and CX, against the references; non-trivial: parents differ",
            quick: 24,
            thorough: 960,
            strat: |_| huge_case(true),
            check: |c, obs| {
                let p = c.pair();
                let kind = c.seed as usize >> 8 & 3;
                let (what, want) = match kind {
                    0 => ("PMX", ref_pmx(&p.p1, &p.p2, c.range())),
                    1 => ("OX", ref_ox(&p.p1, &p.p2, c.range())),
                    _ => ("CX", ref_cx(&p.p1, &p.p2)),
                };
                let got = catch(|| match kind {
                    0 => partially_mapped_crossover(&p.p1, &p.p2, c.range()),
                    1 => order_crossover(&p.p1, &p.p2, c.range()),
                    _ => cycle_crossover(&p.p1, &p.p2),
                }).map_err(|e| format!("{what} of {} genes: {e}", c.n))?;
                let at = got.iter().zip(&want).position(|(x, y)| x != y);
                ensure!(got == want, "{what} of {} genes with range {:?} differs from the reference, first at {at:?}", c.n, c.range());
                obs.nontrivial_if(differ(&p));
                obs.label(what);
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "single_point",
            rule: "arbitrary genomes with repeated genes, any point also beyond the end, direct and through the strategy; non-trivial: length >= 2 and genomes differ",
            quick: 600_000,
            thorough: 24_000_000,
            strat: |_| (0usize..120).prop_flat_map(|n| (vec(0u32..6, n), vec(0u32..6, n), any::<u16>(), any::<u64>()))
                .prop_map(|(a, b, point, seed)| Spx { a, b, point, seed }).boxed(),
            check: |c, obs| {
                let n = c.a.len();
                spx(&c.a, &c.b, c.point as usize % (n + 4))?;
                spx(&c.a, &c.b, usize::MAX - c.point as usize % 3)?;
                let (a, b) = (genes(&c.a), genes(&c.b));
                let child = raw(&run(n, "SPX", || CrossoverStrategy::SinglePoint.crossover(&a, &b, &mut TRng::new(c.seed)))?);
                ensure!(
                    child.len() == n && (0..=n).any(|k| child[..k] == c.a[..k] && child[k..] == c.b[k..]),
                    "single point strategy of {:?} and {:?} gave {:?}", c.a, c.b, child
                );
                obs.nontrivial_if(n >= 2 && c.a != c.b);
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "strategy_matches_some_range",
            rule: "the PMX and OX strategies must produce the reference offspring of some non-empty range; non-trivial: parents differ, length >= 3",
            quick: 180_000,
            thorough: 7_200_000,
            strat: |_| xcase(24),
            check: |c, obs| {
                let (a, b) = (genes(&c.pair.p1), genes(&c.pair.p2));
                let n = a.len();
                for (s, f) in [
                    (CrossoverStrategy::PartiallyMapped, ref_pmx as fn(&[u32], &[u32], Range<usize>) -> Vec<u32>),
                    (CrossoverStrategy::Order, ref_ox),
                ] {
                    let child = raw(&run(n, "strategy", || s.crossover(&a, &b, &mut c.rng()))?);
                    let found = n == 0 && child.is_empty()
                        || (0..n).any(|i| (i + 1..=n).any(|j| f(&c.pair.p1, &c.pair.p2, i..j) == child));
                    ensure!(found, "{s:?} strategy of {:?} and {:?} gave {child:?}, the offspring of no range", c.pair.p1, c.pair.p2);
                }
                obs.nontrivial_if(differ(&c.pair));
                Ok(())
            },
        }),
        other_types!(reference_for, "PMX, OX, CX and single point against the references"),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spx {
    a: Vec<u32>,
    b: Vec<u32>,
    point: u16,
    seed: u64,
}

fn pmx_ox(p: &Pair, a: &[Gene], b: &[Gene], r: Range<usize>) -> CheckResult {
    let n = a.len();
    let c = run(n, &format!("PMX {r:?}"), || partially_mapped_crossover(a, b, r.clone()))?;
    expect(&format!("PMX {r:?}"), p, &c, &ref_pmx(&p.p1, &p.p2, r.clone()))?;
    let c = run(n, &format!("OX {r:?}"), || order_crossover(a, b, r.clone()))?;
    let want = if n == 0 { vec![] } else { ref_ox(&p.p1, &p.p2, r.clone()) };
    expect(&format!("OX {r:?}"), p, &c, &want)
}

fn spx(a: &[u32], b: &[u32], k: usize) -> CheckResult {
    let n = a.len();
    let child = catch(|| single_point_crossover(a, b, k)).map_err(|p| format!("SPX at {k} of length {n}: {p}"))?;
    let cut = k.min(n);
    let mut want = a[..cut].to_vec();
    want.extend_from_slice(&b[cut..]);
    ensure!(child == want, "SPX at {k} of {a:?} and {b:?} gave {child:?}");
    Ok(())
}

// ---------------------------------------------------------------- C14

fn positions(v: &[u32]) -> HashMap<u32, usize> {
    v.iter().enumerate().map(|(i, g)| (*g, i)).collect()
}

pub fn valid_scx(p1: &[u32], p2: &[u32], pivot: u32, child: &[u32]) -> CheckResult {
    let n = p1.len();
    ensure!(child.len() == n, "SCX offspring {child:?} has the wrong length");
    if n < 2 {
        return Ok(());
    }
    let (q1, q2) = (positions(p1), positions(p2));
    ensure!(child[0] == pivot, "SCX of {p1:?} and {p2:?} does not start with the pivot {pivot}: {child:?}");
    let mut used = HashSet::new();
    for i in 0..n - 1 {
        let cur = child[i];
        used.insert(cur);
        let n1 = p1[(q1[&cur] + 1) % n];
        let n2 = p2[(q2[&cur] + 1) % n];
        let next = child[i + 1];
        let (f1, f2) = (!used.contains(&n1), !used.contains(&n2));
        let ok = match (f1, f2) {
            (true, false) => next == n1,
            (false, true) => next == n2,
            (true, true) if n1 == n2 => next == n1,
            (true, true) => {
                let (a, b) = (q2[&n1], q1[&n2]);
                if a < b {
                    next == n1
                } else if a > b {
                    next == n2
                } else {
                    next == n1 || next == n2
                }
            }
            (false, false) => !used.contains(&next) && q1.contains_key(&next),
        };
        ensure!(ok, "SCX of {p1:?} and {p2:?} with pivot {pivot}: after {cur} came {next}; successors {n1} (free {f1}) and {n2} (free {f2}); offspring {child:?}");
    }
    Ok(())
}

pub fn valid_erx(p1: &[u32], p2: &[u32], pivot: u32, child: &[u32]) -> Result<u64, String> {
    let n = p1.len();
    ensure!(child.len() == n, "ERX offspring {child:?} has the wrong length");
    if n < 2 {
        return Ok(0);
    }
    ensure!(child[0] == pivot, "ERX of {p1:?} and {p2:?} does not start with the pivot {pivot}: {child:?}");
    let mut nb: HashMap<u32, HashSet<u32>> = HashMap::new();
    for p in [p1, p2] {
        for i in 0..n {
            let e = nb.entry(p[i]).or_default();
            e.insert(p[(i + 1) % n]);
            e.insert(p[(i + n - 1) % n]);
        }
    }
    let mut used = HashSet::new();
    let mut dead = 0;
    for i in 0..n - 1 {
        let cur = child[i];
        used.insert(cur);
        let next = child[i + 1];
        let free = |g: &u32| nb[g].iter().filter(|x| !used.contains(x)).count();
        let cand: Vec<u32> = nb[&cur].iter().copied().filter(|g| !used.contains(g)).collect();
        if let Some(best) = cand.iter().map(free).min() {
            ensure!(
                cand.contains(&next) && free(&next) == best,
                "ERX of {p1:?} and {p2:?} with pivot {pivot}: after {cur} came {next}, but the unused neighbours are {:?}; offspring {child:?}",
                cand.iter().map(|g| (*g, free(g))).collect::<Vec<_>>()
            );
        } else {
            dead += 1;
            ensure!(!used.contains(&next) && nb.contains_key(&next), "ERX dead end continued with {next}: {child:?}");
        }
    }
    Ok(dead)
}

fn unlabel<G: Label>(v: &[G]) -> Vec<u32> {
    v.iter().map(|g| g.raw()).collect()
}

/// Permutation closure of every operator for genes of type `G`.
fn closed_for<G: Label>(c: &XCase) -> CheckResult {
    let (p, n) = (&c.pair, c.n());
    let (a, b) = (labels::<G>(&p.p1), labels::<G>(&p.p2));
    let ok = |w: &str, v: Vec<G>| -> CheckResult {
        let v = unlabel(&v);
        ensure!(v.len() == n && sorted(&v) == sorted(&p.p1), "{w} of {:?} and {:?} as {} gave {v:?}, not a permutation", p.p1, p.p2, std::any::type_name::<G>());
        Ok(())
    };
    let mut rng = c.rng();
    for s in &STRATS[..6] {
        ok(&format!("{s:?}"), run(n, "strategy", || s.crossover(&a, &b, &mut rng))?)?;
    }
    ok("PMX", run(n, "PMX", || partially_mapped_crossover(&a, &b, c.range()))?)?;
    ok("OX", run(n, "OX", || order_crossover(&a, &b, c.range()))?)?;
    ok("CX", run(n, "CX", || cycle_crossover(&a, &b))?)?;
    if let Some(pv) = c.pivot().map(G::of) {
        ok("SCX", run(n, "SCX", || sequential_constructive_crossover(&a, &b, pv))?)?;
        ok("ERX", run(n, "ERX", || edge_recombination_crossover(&a, &b, pv))?)?;
    }
    Ok(())
}

/// PMX, OX, CX and single point against the references for genes of type `G`.
fn reference_for<G: Label>(c: &XCase) -> CheckResult {
    let (p, n, r) = (&c.pair, c.n(), c.range());
    let (a, b) = (labels::<G>(&p.p1), labels::<G>(&p.p2));
    let same = |w: &str, v: Vec<G>, want: Vec<u32>| -> CheckResult {
        let v = unlabel(&v);
        ensure!(v == want, "{w} of {:?} and {:?} as {}: got {v:?}, expected {want:?}", p.p1, p.p2, std::any::type_name::<G>());
        Ok(())
    };
    same("PMX", run(n, "PMX", || partially_mapped_crossover(&a, &b, r.clone()))?, ref_pmx(&p.p1, &p.p2, r.clone()))?;
    same("OX", run(n, "OX", || order_crossover(&a, &b, r.clone()))?, if n == 0 { vec![] } else { ref_ox(&p.p1, &p.p2, r.clone()) })?;
    same("CX", run(n, "CX", || cycle_crossover(&a, &b))?, ref_cx(&p.p1, &p.p2))?;
    let cut = c.pivot as usize % (n + 2);
    let k = cut.min(n);
    same("SPX", run(n, "SPX", || single_point_crossover(&a, &b, cut))?, [&p.p1[..k], &p.p2[k..]].concat())
}

/// SCX, ERX and GPX2 step by step for genes of type `G`.
fn stepwise_for<G: Label>(c: &XCase) -> CheckResult {
    let (p, n) = (&c.pair, c.n());
    let (a, b) = (labels::<G>(&p.p1), labels::<G>(&p.p2));
    if let Some(pv) = c.pivot() {
        let s = run(n, "SCX", || sequential_constructive_crossover(&a, &b, G::of(pv)))?;
        valid_scx(&p.p1, &p.p2, pv, &unlabel(&s))?;
        let e = run(n, "ERX", || edge_recombination_crossover(&a, &b, G::of(pv)))?;
        valid_erx(&p.p1, &p.p2, pv, &unlabel(&e))?;
    }
    gpx2_ok_of::<G>(p, &c.picks)?;
    let mut rng = c.rng();
    let g = unlabel(&run(n, "GPX2", || CrossoverStrategy::GeneralizedPartition2.crossover(&a, &b, &mut rng))?);
    let parts: Vec<Vec<u32>> = common_partitions(&a, &b).iter().map(|v| unlabel(v)).collect();
    ensure!(concat_of(&g, &parts), "GPX2 strategy of {:?} and {:?} as {} gave {g:?}, not a concatenation of {parts:?}", p.p1, p.p2, std::any::type_name::<G>());
    Ok(())
}

/// Runs GPX2 with a scripted selector, checking what the selector is shown and the resulting concatenation.
fn gpx2_ok(p: &Pair, picks: &[u16]) -> Result<usize, String> {
    gpx2_ok_of::<Gene>(p, picks)
}

fn gpx2_ok_of<G: Label>(p: &Pair, picks: &[u16]) -> Result<usize, String> {
    let n = p.p1.len();
    let (a, b) = (labels::<G>(&p.p1), labels::<G>(&p.p2));
    let parts = common_partitions(&a, &b);
    let total = parts.len();
    let mut left: Vec<Vec<u32>> = parts.iter().map(|v| unlabel(v)).collect();
    let mut built: Vec<u32> = Vec::new();
    let mut problem: Option<String> = None;
    let mut k = 0;
    let child = run(n, "GPX2", || {
        generalized_partition_2_crossover(&a, &b, |last, shown| {
            let mut s: Vec<Vec<u32>> = shown.iter().map(|v| unlabel(v)).collect();
            let i = if picks.is_empty() { 0 } else { picks[k % picks.len()] as usize % s.len() };
            k += 1;
            if k > n + 1 {
                panic!("selector asked more often than there are genes");
            }
            if last.map(|g| g.raw()) != built.last().copied() {
                problem.get_or_insert(format!("selector was shown last gene {last:?}, expected {:?}", built.last()));
            }
            let chosen = s[i].clone();
            s.sort();
            left.sort();
            if s != left {
                problem.get_or_insert(format!("selector was shown partitions {s:?}, expected {left:?}"));
            }
            if let Some(j) = left.iter().position(|x| *x == chosen) {
                left.remove(j);
            }
            built.extend(chosen);
            i
        })
    })?;
    if let Some(m) = problem {
        return Err(format!("GPX2 of {:?} and {:?}: {m}", p.p1, p.p2));
    }
    let child = unlabel(&child);
    ensure!(child == built, "GPX2 of {:?} and {:?} returned {child:?}, but the selected partitions are {built:?}", p.p1, p.p2);
    ensure!(left.is_empty(), "GPX2 of {:?} and {:?} never used the partitions {left:?}", p.p1, p.p2);
    Ok(total)
}

/// Can `child` be split into the given partitions (in any order)?
fn concat_of(child: &[u32], parts: &[Vec<u32>]) -> bool {
    let by_first: HashMap<u32, &Vec<u32>> = parts.iter().map(|p| (p[0], p)).collect();
    let mut i = 0;
    let mut used = 0;
    while i < child.len() {
        let Some(p) = by_first.get(&child[i]) else { return false };
        if child.len() < i + p.len() || child[i..i + p.len()] != p[..] {
            return false;
        }
        i += p.len();
        used += 1;
    }
    used == parts.len()
}

fn c14() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Exhaust {
            name: "stepwise_exhaustive",
            rule: "all parent pairs up to length 4, identity x all permutations up to 6, every pivot; SCX and ERX checked step by step, GPX2 with several selectors; non-trivial: parents differ, length >= 3",
            cases: |t| all_pairs(4, if t == Tier::Quick { 6 } else { 7 }),
            check: |p, obs| {
                let n = p.p1.len();
                let (a, b) = (genes(&p.p1), genes(&p.p2));
                for &pv in &p.p1 {
                    let c = run(n, "SCX", || sequential_constructive_crossover(&a, &b, Gene(pv)))?;
                    valid_scx(&p.p1, &p.p2, pv, &raw(&c))?;
                    let c = run(n, "ERX", || edge_recombination_crossover(&a, &b, Gene(pv)))?;
                    valid_erx(&p.p1, &p.p2, pv, &raw(&c))?;
                }
                for k in 0..n.max(1) as u16 {
                    gpx2_ok(p, &[k])?;
                    gpx2_ok(p, &[k, 0, 1])?;
                }
                obs.nontrivial_if(differ(p));
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "stepwise_generated",
            rule: "generated permutation pairs of length 0..160, any pivot and partition choices; SCX and ERX checked step by step against the successor / neighbour rule, GPX2 against the partitions shown to the selector; non-trivial: parents differ, length >= 3",
            quick: 240_000,
            thorough: 9_600_000,
            strat: |_| xcase(160),
            check: |c, obs| {
                let p = &c.pair;
                let (a, b) = (genes(&p.p1), genes(&p.p2));
                let n = a.len();
                if let Some(pv) = c.pivot() {
                    let s = run(n, "SCX", || sequential_constructive_crossover(&a, &b, Gene(pv)))?;
                    valid_scx(&p.p1, &p.p2, pv, &raw(&s))?;
                    let e = run(n, "ERX", || edge_recombination_crossover(&a, &b, Gene(pv)))?;
                    let dead = valid_erx(&p.p1, &p.p2, pv, &raw(&e))?;
                    obs.label_if(dead > 0, "ERX dead end");
                }
                let parts = gpx2_ok(p, &c.picks)?;
                obs.label_if(parts > 1 && parts < n, "GPX2 with shared runs");
                obs.nontrivial_if(differ(p));
                obs.label(size_label(n));
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "stepwise_long",
            rule: "permutation pairs of length 160..900: SCX, ERX and GPX2 step by step; non-trivial: parents differ",
            quick: 300,
            thorough: 12_000,
            strat: |_| long_case(160, 900, usize::MAX),
            check: |c, obs| {
                let p = c.pair();
                let (a, b) = (genes(&p.p1), genes(&p.p2));
                let pv = p.p1[c.lo % c.n];
                valid_scx(&p.p1, &p.p2, pv, &raw(&run(c.n, "SCX", || sequential_constructive_crossover(&a, &b, Gene(pv)))?))?;
                valid_erx(&p.p1, &p.p2, pv, &raw(&run(c.n, "ERX", || edge_recombination_crossover(&a, &b, Gene(pv)))?))?;
                gpx2_ok(&p, &c.picks)?;
                obs.nontrivial_if(differ(&p));
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "stepwise_huge",
            rule: "permutation pairs of length 65500..70000, SCX or (parents up to five edits apart) GPX2 step by step; non-trivial: parents differ",
            quick: 24,
            thorough: 960,
            strat: |_| huge_case(true),
            check: |c, obs| {
                let p = c.pair();
                if c.edits > 0 && c.seed & 256 == 0 {
                    gpx2_ok(&p, &c.picks)?;
                    obs.label("GPX2");
                } else {
                    let pv = p.p1[c.lo % c.n];
                    let child = catch(|| sequential_constructive_crossover(&p.p1, &p.p2, pv)).map_err(|e| format!("SCX of {} genes: {e}", c.n))?;
                    valid_scx(&p.p1, &p.p2, pv, &child)?;
                    obs.label("SCX");
                }
                obs.nontrivial_if(differ(&p));
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "strategies",
            rule: "SCX, ERX and GPX2 through the strategy with any generator state must be a valid offspring for the pivot they start with / some order of the common partitions; non-trivial: parents differ, length >= 3",
            quick: 150_000,
            thorough: 6_000_000,
            strat: |_| xcase(100),
            check: |c, obs| {
                let p = &c.pair;
                let n = c.n();
                let (a, b) = (genes(&p.p1), genes(&p.p2));
                let mut rng = c.rng();
                let s = raw(&run(n, "SCX", || CrossoverStrategy::SequentialConstructive.crossover(&a, &b, &mut rng))?);
                let e = raw(&run(n, "ERX", || CrossoverStrategy::EdgeRecombination.crossover(&a, &b, &mut rng))?);
                let g = raw(&run(n, "GPX2", || CrossoverStrategy::GeneralizedPartition2.crossover(&a, &b, &mut rng))?);
                if n > 0 {
                    valid_scx(&p.p1, &p.p2, s[0], &s)?;
                    valid_erx(&p.p1, &p.p2, e[0], &e)?;
                }
                let parts: Vec<Vec<u32>> = common_partitions(&a, &b).iter().map(|v| raw(v)).collect();
                ensure!(concat_of(&g, &parts), "GPX2 strategy of {:?} and {:?} gave {g:?}, not a concatenation of {parts:?}", p.p1, p.p2);
                obs.nontrivial_if(differ(p));
                Ok(())
            },
        }),
        other_types!(stepwise_for, "SCX, ERX and GPX2 step by step, and GPX2 through the strategy,"),
    ]
}

// ---------------------------------------------------------------- C15

fn edges(v: &[u32]) -> HashSet<(u32, u32)> {
    let n = v.len();
    if n < 2 {
        return HashSet::new();
    }
    (0..n).map(|i| (v[i], v[(i + 1) % n])).map(|(a, b)| (a.min(b), a.max(b))).collect()
}

fn check_neighbors<G: Label>(a: &[u32], b: &[u32]) -> Result<HashSet<(u32, u32)>, String> {
    let want: HashSet<_> = edges(a).intersection(&edges(b)).copied().collect();
    let n = a.len().max(b.len());
    let got = run(n, "common_neighbors", || common_neighbors(&labels::<G>(a), &labels::<G>(b)))?;
    let got: Vec<(u32, u32)> = got.iter().map(|(x, y)| (x.raw(), y.raw())).collect();
    let set: HashSet<_> = got.iter().map(|&(x, y)| (x.min(y), x.max(y))).collect();
    ensure!(set == want, "common neighbours of {a:?} and {b:?}: got {set:?}, expected {want:?}");
    if a.len().min(b.len()) > 2 {
        ensure!(got.len() == set.len(), "common neighbours of {a:?} and {b:?} are repeated: {got:?}");
    }
    Ok(want)
}

fn check_partitions(a: &[u32], b: &[u32]) -> CheckResult {
    check_partitions_of::<Gene>(a, b)
}

fn check_partitions_of<G: Label>(a: &[u32], b: &[u32]) -> CheckResult {
    let common = check_neighbors::<G>(a, b)?;
    check_neighbors::<G>(b, a)?;
    let n = a.len().max(b.len());
    let parts: Vec<Vec<u32>> =
        run(n, "common_partitions", || common_partitions(&labels::<G>(a), &labels::<G>(b)))?.iter().map(|v| v.iter().map(|g| g.raw()).collect()).collect();
    let all: Vec<u32> = parts.concat();
    ensure!(
        sorted(&all) == sorted(a) && parts.iter().all(|p| !p.is_empty()),
        "common partitions of {a:?} and {b:?} do not use every gene exactly once: {parts:?}"
    );
    for p in &parts {
        for w in p.windows(2) {
            ensure!(
                common.contains(&(w[0].min(w[1]), w[0].max(w[1]))),
                "partition {p:?} of {a:?} and {b:?} joins {} and {}, which are not neighbours in both",
                w[0],
                w[1]
            );
        }
    }
    if sorted(a) == sorted(b) {
        // Shared runs = connected components of the common-neighbour graph.
        let mut adj: HashMap<u32, Vec<u32>> = HashMap::new();
        for &(x, y) in &common {
            adj.entry(x).or_default().push(y);
            adj.entry(y).or_default().push(x);
        }
        let mut comp: HashMap<u32, usize> = HashMap::new();
        let mut count = 0;
        for &g in a {
            if comp.contains_key(&g) {
                continue;
            }
            let mut todo = vec![g];
            while let Some(x) = todo.pop() {
                if comp.insert(x, count).is_none() {
                    todo.extend(adj.get(&x).into_iter().flatten());
                }
            }
            count += 1;
        }
        let mut pieces = vec![0; count];
        for p in &parts {
            pieces[comp[&p[0]]] += 1;
        }
        for (c, &k) in pieces.iter().enumerate() {
            let allowed = if c == comp[&a[0]] { 2 } else { 1 };
            ensure!(k <= allowed, "common partitions of {a:?} and {b:?} break a shared run into {k} pieces: {parts:?}");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    a: Vec<u32>,
    b: Vec<u32>,
}

fn c15() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Exhaust {
            name: "exhaustive",
            rule: "all pairs of permutations up to length 4 and identity x all up to 7; non-trivial: length >= 2",
            cases: |t| all_pairs(4, if t == Tier::Quick { 7 } else { 8 }),
            check: |p, obs| {
                obs.nontrivial_if(p.p1.len() >= 2);
                check_partitions(&p.p1, &p.p2)
            },
        }),
        Box::new(Prop {
            name: "permutations",
            rule: "generated permutation pairs of length 0..250, from unrelated to lightly edited, both argument orders; non-trivial: at least one common neighbour and parents differ",
            quick: 480_000,
            thorough: 19_200_000,
            strat: |_| perm_pair(250),
            check: |p, obs| {
                let common = edges(&p.p1).intersection(&edges(&p.p2)).count();
                obs.nontrivial_if(common > 0 && p.p1 != p.p2);
                obs.label(size_label(p.p1.len()));
                check_partitions(&p.p1, &p.p2)
            },
        }),
        Box::new(Prop {
            name: "long_permutations",
            rule: "permutation pairs of length 250..2500, unrelated or up to five edits apart; non-trivial: parents differ",
            quick: 600,
            thorough: 24_000,
            strat: |_| long_case(250, 2500, usize::MAX),
            check: |c, obs| {
                let p = c.pair();
                obs.nontrivial_if(p.p1 != p.p2);
                check_partitions(&p.p1, &p.p2)
            },
        }),
        Box::new(Prop {
            name: "huge_permutations",
            rule: "permutation pairs of length 65500..70000, unrelated or up to five edits apart; non-trivial: parents differ",
            quick: 40,
            thorough: 1_600,
            strat: |_| huge_case(true),
            check: |c, obs| {
                let p = c.pair();
                obs.nontrivial_if(p.p1 != p.p2);
                check_partitions(&p.p1, &p.p2)
            },
        }),
        Box::new(Prop {
            name: "different_gene_sets",
            rule: "genomes of distinct genes with different lengths and partial overlap, both argument orders; non-trivial: at least one common neighbour",
            quick: 360_000,
            thorough: 14_400_000,
            strat: |_| (perm_pair(60), any::<u16>(), any::<u16>(), vec((any::<u16>(), any::<u32>()), 0..5)).prop_map(|(p, x, y, ins)| {
                let cut = |v: &[u32], k: u16| -> Vec<u32> {
                    let m = v.len() + 1;
                    let keep = m - 1 - (k as usize % m) / 2;
                    v[..keep].to_vec()
                };
                let a = cut(&p.p1, x);
                let mut b = cut(&p.p2, y);
                for (at, g) in ins {
                    if !b.contains(&g) {
                        let i = at as usize % (b.len() + 1);
                        b.insert(i, g);
                    }
                }
                Two { a, b }
            }).boxed(),
            check: |c, obs| {
                let common = edges(&c.a).intersection(&edges(&c.b)).count();
                obs.nontrivial_if(common > 0);
                obs.label_if(c.a.len() < c.b.len(), "first shorter");
                obs.label_if(c.a.len() > c.b.len(), "first longer");
                obs.label_if(c.a.len().min(c.b.len()) == 2, "a two-gene genome");
                check_partitions(&c.a, &c.b)?;
                check_partitions(&c.b, &c.a)
            },
        }),
        Box::new(Prop {
            name: "other_gene_types",
            rule: "permutation pairs of length 0..40 of genes whose order is only partial and of genes without an order that all have the same hash, and genomes of them with different lengths; non-trivial: at least one common neighbour and parents differ",
            quick: 120_000,
            thorough: 4_800_000,
            strat: |_| (perm_pair(40), 0usize..20).prop_map(|(p, cut)| {
                let mut b = p.p2;
                b.truncate(if cut < 10 { b.len() } else { b.len().saturating_sub(cut - 10) });
                Two { a: p.p1, b }
            }).boxed(),
            check: |c, obs| {
                obs.nontrivial_if(edges(&c.a).intersection(&edges(&c.b)).count() > 0 && c.a != c.b);
                obs.label_if(c.a.len() != c.b.len(), "different lengths");
                check_partitions_of::<Point>(&c.a, &c.b)?;
                check_partitions_of::<Point>(&c.b, &c.a)?;
                check_partitions_of::<Name>(&c.a, &c.b)?;
                check_partitions_of::<Name>(&c.b, &c.a)
            },
        }),
    ]
}

// ---------------------------------------------------------------- C16

pub const MUTS: [MutationStrategy; 5] = [
    MutationStrategy::Swap,
    MutationStrategy::Scramble,
    MutationStrategy::Inversion,
    MutationStrategy::Insertion,
    MutationStrategy::Duplicate,
];

pub fn mutate_direct<G: Copy>(kind: usize, g: &mut [G], rng: &mut TRng) {
    match kind {
        0 => swap_mutation(g, rng),
        1 => scramble_mutation(g, rng),
        2 => inversion_mutation(g, rng),
        3 => insertion_mutation(g, rng),
        _ => duplicate_mutation(g, rng),
    }
}

/// Checks one edit of a genome. `before` may contain repeated genes; `ids` are distinct tags of the positions.
fn valid_edit(kind: usize, n: usize, after: &[u32]) -> CheckResult {
    // The genome mutated is 0..n, so `after` shows where every gene came from.
    let changed: Vec<usize> = (0..n).filter(|&i| after[i] != i as u32).collect();
    let lo = changed.first().copied().unwrap_or(0);
    let hi = changed.last().copied().unwrap_or(0);
    let perm = sorted(after) == (0..n as u32).collect::<Vec<_>>();
    let name = MUTS[kind];
    let ok = if n < 2 {
        changed.is_empty()
    } else {
        match kind {
            0 => changed.len() == 2 && after[lo] == hi as u32 && after[hi] == lo as u32,
            1 => perm,
            2 => perm && changed.len() >= 2 && (lo..=hi).all(|i| after[i] == (lo + hi - i) as u32),
            3 => {
                perm && changed.len() >= 2
                    && (after[lo] == hi as u32 && (lo + 1..=hi).all(|i| after[i] == i as u32 - 1)
                        || after[hi] == lo as u32 && (lo..hi).all(|i| after[i] == i as u32 + 1))
            }
            _ => changed.len() == 1 && (after[lo] as usize) < n,
        }
    };
    ensure!(ok, "{name:?} mutation turned 0..{n} into {after:?}");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MutCase {
    kind: usize,
    values: Vec<u32>,
    seed: u64,
    script: Vec<u64>,
    /// Distribution cases: genome length and number of draws.
    n: usize,
    draws: u64,
}

fn c16() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "edit_shape",
            rule: "every mutation on genomes of length 0..300, seeded and scripted generators: shape of the edit, agreement of direct and strategy form, of Copy and non-Copy genes and of genomes with repeated genes; non-trivial: genome changed",
            quick: 1_500_000,
            thorough: 60_000_000,
            strat: |_| (0usize..5, genome_len(300), any::<u64>(), vec(any::<u64>(), 0..3), 1u32..8)
                .prop_flat_map(|(kind, n, seed, script, k)| (vec(0..k, n), Just((kind, seed, script))))
                .prop_map(|(values, (kind, seed, script))| MutCase { kind, n: values.len(), values, seed, script, draws: 0 }).boxed(),
            check: |c, obs| {
                let n = c.n;
                let mk = || TRng::scripted(c.seed, c.script.clone());
                let mut a: Vec<u32> = (0..n as u32).collect();
                let mut r = mk();
                mutate_direct(c.kind, &mut a, &mut r);
                ensure!(a.len() == n, "length changed");
                valid_edit(c.kind, n, &a)?;
                // Strategy form: same edit from the same generator state.
                let mut b: Vec<u32> = (0..n as u32).collect();
                MUTS[c.kind].mutate(&mut b, &mut mk());
                ensure!(a == b, "{:?}: direct form gave {a:?}, strategy form {b:?}", MUTS[c.kind]);
                // Genes are opaque: the same positions move for repeated and for non-Copy genes.
                let mut v = c.values.clone();
                mutate_direct(c.kind, &mut v, &mut mk());
                let want: Vec<u32> = a.iter().map(|&i| c.values[i as usize]).collect();
                ensure!(v == want, "{:?} of {:?} gave {v:?}, expected {want:?}", MUTS[c.kind], c.values);
                if c.kind < 4 {
                    let mut s: Vec<String> = (0..n).map(|i| format!("g{i}")).collect();
                    let mut r = mk();
                    match c.kind {
                        0 => swap_mutation(&mut s, &mut r),
                        1 => scramble_mutation(&mut s, &mut r),
                        2 => inversion_mutation(&mut s, &mut r),
                        _ => insertion_mutation(&mut s, &mut r),
                    }
                    let want: Vec<String> = a.iter().map(|i| format!("g{i}")).collect();
                    ensure!(s == want, "{:?} of non-Copy genes gave {s:?}", MUTS[c.kind]);
                }
                obs.nontrivial_if(n >= 2);
                obs.label(format!("{:?}", MUTS[c.kind]));
                obs.label(size_label(n));
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "edit_shape_long",
            rule: "every mutation on genomes of 300..70000 distinct genes: shape of the edit and agreement of direct and strategy form; non-trivial: all",
            quick: 8_000,
            thorough: 320_000,
            strat: |_| (0usize..5, prop_oneof![20 => 300usize..3000, 1 => 3000usize..70_000], any::<u64>(), vec(any::<u64>(), 0..3))
                .prop_map(|(kind, n, seed, script)| MutCase { kind, n, values: vec![], seed, script, draws: 0 }).boxed(),
            check: |c, obs| {
                let base: Vec<u32> = (0..c.n as u32).collect();
                let (mut a, mut b) = (base.clone(), base);
                mutate_direct(c.kind, &mut a, &mut TRng::scripted(c.seed, c.script.clone()));
                valid_edit(c.kind, c.n, &a)?;
                MUTS[c.kind].mutate(&mut b, &mut TRng::scripted(c.seed, c.script.clone()));
                ensure!(a == b, "{:?} of {} genes: direct and strategy form differ", MUTS[c.kind], c.n);
                obs.nontrivial = true;
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "edit_distribution",
            rule: "40000 mutations of a genome of length 2..7 (scramble 2..5), all outcomes against the exact law; non-trivial: all",
            quick: 4_000,
            thorough: 160_000,
            strat: |t| (0usize..5, 2usize..=7, any::<u64>()).prop_map(move |(kind, n, seed)| MutCase {
                kind, n: if kind == 1 { 2 + (n - 2) % 4 } else { n }, seed, script: vec![], values: vec![],
                draws: if t == Tier::Quick { 40_000 } else { 200_000 } }).boxed(),
            check: |c, obs| {
                let law = edit_law(c.kind, c.n);
                let keys: HashMap<Vec<u32>, usize> = law.iter().enumerate().map(|(i, (k, _))| (k.clone(), i)).collect();
                let mut counts = vec![0u64; law.len()];
                let mut rng = TRng::new(c.seed);
                for _ in 0..c.draws {
                    let mut g: Vec<u32> = (0..c.n as u32).collect();
                    mutate_direct(c.kind, &mut g, &mut rng);
                    let key = edit_key(c.kind, c.n, &g);
                    let Some(&i) = keys.get(&key) else {
                        return Err(format!("{:?} of 0..{} gave {g:?}", MUTS[c.kind], c.n));
                    };
                    counts[i] += 1;
                }
                obs.nontrivial = true;
                obs.label(format!("{:?} n={}", MUTS[c.kind], c.n));
                let probs: Vec<f64> = law.iter().map(|x| x.1).collect();
                stat::compare(&counts, &probs, &format!("{:?} on {} genes, outcomes {:?}", MUTS[c.kind], c.n, law.iter().map(|x| &x.0).take(12).collect::<Vec<_>>()))
            },
        }),
        Box::new(Prop {
            name: "edit_distribution_long",
            rule: "40000 mutations of a genome of length 8..400 (sometimes 3000): coarse distribution of the end points of the edit against the exact law; non-trivial: all",
            quick: 2_000,
            thorough: 80_000,
            strat: |_| (0usize..5, prop_oneof![20 => 8usize..40, 20 => 40usize..400, 1 => 400usize..3000], any::<u64>()).prop_map(|(kind, n, seed)| MutCase {
                kind, n: if kind == 1 { n.min(1000) } else { n }, seed, script: vec![], values: vec![], draws: 40_000 }).boxed(),
            check: |c, obs| {
                // Bins over (lo, hi) end points for swap / inversion / insertion, destination for duplicate.
                let n = c.n;
                let b = 4;
                let bin = |i: usize| i * b / n;
                let mut probs = vec![0.0; b * b + 1];
                if c.kind == 1 {
                    scramble_span_law(n, &mut |span, p| probs[span.map_or(b * b, |(lo, hi)| bin(lo) * b + bin(hi))] += p);
                }
                for lo in 0..n {
                    for hi in lo + 1..n {
                        if c.kind == 1 { break; }
                        let p = if c.kind == 2 {
                            let len = hi - lo + 1;
                            1.0 / ((n - 1) as f64 * (n - len + 1) as f64)
                        } else {
                            2.0 / (n * (n - 1)) as f64
                        };
                        if c.kind == 4 {
                            probs[bin(lo) * b + bin(hi)] += p / 2.0;
                            probs[bin(hi) * b + bin(lo)] += p / 2.0;
                        } else {
                            probs[bin(lo) * b + bin(hi)] += p;
                        }
                    }
                }
                let mut counts = vec![0u64; b * b + 1];
                let mut rng = TRng::new(c.seed);
                let base: Vec<u32> = (0..n as u32).collect();
                let mut g = base.clone();
                for _ in 0..c.draws {
                    g.copy_from_slice(&base);
                    mutate_direct(c.kind, &mut g, &mut rng);
                    let Some(lo) = (0..n).find(|&i| g[i] != i as u32) else {
                        if c.kind != 1 { return Err(format!("{:?} left the genome of {n} genes unchanged", MUTS[c.kind])); }
                        counts[b * b] += 1;
                        continue;
                    };
                    let hi = (0..n).rev().find(|&i| g[i] != i as u32).unwrap();
                    let key = if c.kind == 4 { bin(g[lo] as usize) * b + bin(lo) } else { bin(lo) * b + bin(hi) };
                    counts[key] += 1;
                }
                obs.nontrivial = true;
                stat::compare(&counts, &probs, &format!("{:?} on {n} genes, end points in quarters", MUTS[c.kind]))
            },
        }),
        Box::new(Prop {
            name: "edit_distribution_huge",
            rule: "3000 mutations of a genome of length 3000..70000: quarters of the first end point, of the last one and of their distance against the exact law; non-trivial: all",
            quick: 120,
            thorough: 4_800,
            strat: |_| (0usize..5, prop_oneof![2 => 3000usize..66_000, 1 => 65_500usize..70_000], any::<u64>()).prop_map(|(kind, n, seed)| MutCase {
                kind, n, seed, script: vec![], values: vec![], draws: 3_000 }).boxed(),
            check: |c, obs| {
                let n = c.n;
                let b = 4;
                let bin = |i: usize| i * b / n;
                // A scramble leaves the ends of its stretch in place too rarely to tell at this scale; the last bin counts
                // scrambles that move nothing.
                let none = if c.kind == 1 { 0.718 / (n - 1) as f64 } else { 0.0 };
                let mut laws = vec![vec![0.0; b + 1]; 3];
                let all = (n as f64) * (n - 1) as f64;
                let mut tail = 0.0;
                for i in (0..n).rev() {
                    // `tail`: chance that a stretch of even length 2..=n and even start begins at i.
                    if n - i >= 2 {
                        tail += 1.0 / ((n - 1) as f64 * (i + 1) as f64);
                    }
                    let (lo, hi, dist) = match c.kind {
                        1 | 2 => (tail, 0.0, if i > 0 { 1.0 / (n - 1) as f64 } else { 0.0 }),
                        4 => (1.0 / n as f64, 1.0 / n as f64, if i > 0 { 2.0 * (n - i) as f64 / all } else { 0.0 }),
                        _ => (2.0 * (n - 1 - i) as f64 / all, 2.0 * i as f64 / all, if i > 0 { 2.0 * (n - i) as f64 / all } else { 0.0 }),
                    };
                    laws[0][bin(i)] += lo * (1.0 - none);
                    if matches!(c.kind, 1 | 2) {
                        laws[1][bin(n - 1 - i)] += tail * (1.0 - none);
                    } else {
                        laws[1][bin(i)] += hi;
                    }
                    laws[2][bin(i)] += dist * (1.0 - none);
                }
                laws.iter_mut().for_each(|l| l[b] = none);
                let mut counts = vec![vec![0u64; b + 1]; 3];
                let mut rng = TRng::new(c.seed);
                rng.max_draws = u64::MAX;
                let base: Vec<u32> = (0..n as u32).collect();
                let mut g = base.clone();
                for _ in 0..c.draws {
                    g.copy_from_slice(&base);
                    mutate_direct(c.kind, &mut g, &mut rng);
                    let at = g.iter().zip(&base).position(|(x, y)| x != y).map(|lo| {
                        let hi = n - 1 - g.iter().zip(&base).rev().position(|(x, y)| x != y).unwrap();
                        if c.kind == 4 { ((g[lo] as usize).min(n - 1), lo) } else { (lo, hi) }
                    });
                    let key = at.map_or([b; 3], |(x, y)| [bin(x), bin(y), bin(x.abs_diff(y))]);
                    (0..3).for_each(|i| counts[i][key[i]] += 1);
                }
                obs.nontrivial = true;
                obs.label(format!("{:?}", MUTS[c.kind]));
                for (i, what) in ["first point", "second point", "distance"].into_iter().enumerate() {
                    stat::compare(&counts[i], &laws[i], &format!("{:?} on {n} genes, {what} of the edit in quarters", MUTS[c.kind]))?;
                }
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "edit_ends",
            rule: "60n mutations (at least 20000) of a genome of n = 8..300 (sometimes 2500) genes: first and last end point of the edit and their distance, with the two extreme values at either end on their own, against the exact law; non-trivial: all",
            quick: 500,
            thorough: 20_000,
            strat: |_| (0usize..5, prop_oneof![20 => 8usize..300, 3 => 300usize..2500], any::<u64>()).prop_map(|(kind, n, seed)| {
                let n = if kind == 1 { n.min(700) } else { n };
                MutCase { kind, n, seed, script: vec![], values: vec![], draws: end_draws(n) }
            }).boxed(),
            check: |c, obs| {
                let n = c.n;
                // Points (lo, hi) of swap, scramble, inversion, insertion; (source, destination) of duplicate.
                let mut law = [[0.0; END_BINS + 1]; 3];
                let mut add = |at: Option<(usize, usize)>, p: f64| {
                    let (x, y, z) = at.map_or((END_BINS, END_BINS, END_BINS), |(x, y)| (end_bin(x, n), end_bin(y, n), end_bin(x.abs_diff(y), n)));
                    law[0][x] += p;
                    law[1][y] += p;
                    law[2][z] += p;
                };
                match c.kind {
                    1 => scramble_span_law(n, &mut add),
                    2 => (0..n).for_each(|lo| (lo + 1..n).for_each(|hi| add(Some((lo, hi)), 1.0 / ((n - 1) as f64 * (n - (hi - lo)) as f64)))),
                    4 => (0..n).for_each(|i| (0..n).filter(|j| *j != i).for_each(|j| add(Some((i, j)), 1.0 / (n * (n - 1)) as f64))),
                    _ => (0..n).for_each(|lo| (lo + 1..n).for_each(|hi| add(Some((lo, hi)), 2.0 / (n * (n - 1)) as f64))),
                }
                let mut counts = [[0u64; END_BINS + 1]; 3];
                let mut rng = TRng::new(c.seed);
                let base: Vec<u32> = (0..n as u32).collect();
                let mut g = base.clone();
                for _ in 0..c.draws {
                    g.copy_from_slice(&base);
                    mutate_direct(c.kind, &mut g, &mut rng);
                    let at = g.iter().zip(&base).position(|(x, y)| x != y).map(|lo| {
                        let hi = n - 1 - g.iter().zip(&base).rev().position(|(x, y)| x != y).unwrap();
                        if c.kind == 4 { ((g[lo] as usize).min(n - 1), lo) } else { (lo, hi) }
                    });
                    let key = at.map_or([END_BINS; 3], |(x, y)| [end_bin(x, n), end_bin(y, n), end_bin(x.abs_diff(y), n)]);
                    for i in 0..3 {
                        counts[i][key[i]] += 1;
                    }
                }
                obs.nontrivial = true;
                for (i, what) in ["first point", "second point", "distance"].into_iter().enumerate() {
                    stat::compare(&counts[i], &law[i], &format!("{:?} on {n} genes, {what} of the edit (0, 1, lower half, upper half, n-2, n-1, none)", MUTS[c.kind]))?;
                }
                Ok(())
            },
        }),
    ]
}

/// Bins that single out both ends of 0..n: 0, 1, two inner halves, n - 2, n - 1.
fn end_bin(i: usize, n: usize) -> usize {
    match i {
        0 => 0,
        1 => 1,
        _ if i + 1 == n => 5,
        _ if i + 2 == n => 4,
        _ => 2 + usize::from(2 * i >= n),
    }
}
const END_BINS: usize = 6;

/// Draws for which an outcome of probability 1/n that never occurs is beyond the threshold of `stat`.
fn end_draws(n: usize) -> u64 {
    (60 * n as u64).max(20_000)
}

/// Law of the first and last moved position of a scramble of `n` distinct genes (None: nothing moved). A shuffle of a
/// stretch that leaves more than 12 genes at its ends in place is less likely than 1e-9 and counted as leaving 12.
fn scramble_span_law(n: usize, f: &mut dyn FnMut(Option<(usize, usize)>, f64)) {
    for len in 2..=n {
        let each = 1.0 / ((n - 1) as f64 * (n - len + 1) as f64);
        let mut ratio = 1.0; // m! / len!
        for d in 0..=(len - 2).min(12) {
            let m = (len - d) as f64;
            let p = each * ratio * (1.0 - 2.0 / m + 1.0 / (m * (m - 1.0)));
            for start in 0..=n - len {
                for left in 0..=d {
                    f(Some((start + left, start + left + len - d - 1)), p);
                }
            }
            ratio /= m;
        }
        f(None, (1..=len).map(|i| 1.0 / i as f64).product::<f64>() / (n - 1) as f64);
    }
}

fn edit_key(kind: usize, n: usize, g: &[u32]) -> Vec<u32> {
    if kind == 3 {
        let changed: Vec<u32> = (0..n as u32).filter(|&i| g[i as usize] != i).collect();
        return vec![changed.first().copied().unwrap_or(0), changed.last().copied().unwrap_or(0)];
    }
    g.to_vec()
}

/// Exact law of the outcomes (keys as in `edit_key`) on 0..n.
fn edit_law(kind: usize, n: usize) -> Vec<(Vec<u32>, f64)> {
    let mut m: std::collections::BTreeMap<Vec<u32>, f64> = Default::default();
    let base: Vec<u32> = (0..n as u32).collect();
    match kind {
        1 | 2 => {
            for len in 2..=n {
                for start in 0..=n - len {
                    let p = 1.0 / ((n - 1) * (n - len + 1)) as f64;
                    if kind == 2 {
                        let mut g = base.clone();
                        g[start..start + len].reverse();
                        *m.entry(g).or_default() += p;
                    } else {
                        let perms = all_perms(len);
                        for q in &perms {
                            let mut g = base.clone();
                            for (i, &x) in q.iter().enumerate() {
                                g[start + i] = start as u32 + x;
                            }
                            *m.entry(g).or_default() += p / perms.len() as f64;
                        }
                    }
                }
            }
        }
        _ => {
            for i in 0..n {
                for j in 0..n {
                    if i == j {
                        continue;
                    }
                    let p = 1.0 / (n * (n - 1)) as f64;
                    let key = match kind {
                        0 => {
                            let mut g = base.clone();
                            g.swap(i, j);
                            g
                        }
                        3 => vec![i.min(j) as u32, i.max(j) as u32],
                        _ => {
                            let mut g = base.clone();
                            g[j] = g[i];
                            g
                        }
                    };
                    *m.entry(key).or_default() += p;
                }
            }
        }
    }
    m.into_iter().collect()
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RangeCase {
    n: usize,
    min: usize,
    max: usize,
    seed: u64,
    script: Vec<u64>,
    draws: u64,
}

/// Numbers with up to 64 bits, often next to a power of two.
fn huge_n() -> BoxedStrategy<usize> {
    prop_oneof![
        (31u32..64, any::<u64>()).prop_map(|(k, x)| (1usize << k) | (x as usize & ((1usize << k) - 1))),
        (31u32..64, 0usize..5).prop_map(|(k, d)| (1usize << k) - 2 + d),
        (0usize..3).prop_map(|d| usize::MAX - d),
    ]
    .boxed()
}

fn c17() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "bounds",
            rule: "n up to 2^64 - 1, any admissible length bounds, seeded and scripted generators; non-trivial: n >= 3",
            quick: 3_000_000,
            thorough: 120_000_000,
            strat: |_| (prop_oneof![0usize..12, 1usize..1000, 1usize..(1 << 40), huge_n()], any::<u64>(), any::<u64>(), any::<u64>(), vec(any::<u64>(), 0..4), 0u8..6)
                .prop_map(|(n, a, b, seed, script, k)| {
                    let m = n as u128 + 1;
                    let (a, b) = ((a as u128 % m) as usize, (b as u128 % m) as usize);
                    let (min, max) = match k {
                        0 => (n, n),
                        1 => (0, a),
                        2 => (a, a),
                        3 => (a, n),
                        _ => (a.min(b), a.max(b)),
                    };
                    RangeCase { n, min, max, seed, script, draws: 0 }
                }).boxed(),
            check: |c, obs| {
                let mut rng = TRng::scripted(c.seed, c.script.clone());
                rng.max_draws = 10_000;
                let n = c.n;
                let p = catch(|| random_pair(n, &mut rng));
                if n < 2 {
                    ensure!(p.is_err(), "random_pair({n}) returned {p:?}");
                } else {
                    let (i, j) = p?;
                    ensure!(i < n && j < n && i != j, "random_pair({n}) gave {:?}", (i, j));
                }
                let r = catch(|| random_range(n, &mut rng));
                if n == 0 {
                    ensure!(r.is_err(), "random_range(0) returned {r:?}");
                } else {
                    let r = r?;
                    ensure!(r.start < r.end && r.end <= n, "random_range({n}) gave {r:?}");
                }
                let r = catch(|| bounded_random_range(n, c.min, c.max, &mut rng))?;
                ensure!(
                    r.start <= r.end && r.end <= n && r.len() >= c.min && r.len() <= c.max,
                    "bounded_random_range({n}, {}, {}) gave {r:?}", c.min, c.max
                );
                if c.min < c.max {
                    let r = catch(|| bounded_random_range(n, c.max, c.min, &mut rng));
                    ensure!(r.is_err(), "bounded_random_range({n}, {}, {}) returned {r:?}", c.max, c.min);
                }
                obs.nontrivial_if(n >= 3);
                obs.label_if(c.min == c.max, "single length");
                obs.label_if(n > 1000, "large n");
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "uniformity",
            rule: "60000 draws for n up to 9 with every outcome against the exact law; non-trivial: all",
            quick: 4_000,
            thorough: 160_000,
            strat: |_| (2usize..=9, any::<u64>(), any::<u64>(), any::<u64>()).prop_map(|(n, a, b, seed)| {
                let (a, b) = ((a % (n as u64 + 1)) as usize, (b % (n as u64 + 1)) as usize);
                RangeCase { n, min: a.min(b), max: a.max(b), seed, script: vec![], draws: 60_000 }
            }).boxed(),
            check: |c, obs| {
                let n = c.n;
                let mut rng = TRng::new(c.seed);
                let mut pairs = vec![0u64; n * n];
                for _ in 0..c.draws {
                    let (i, j) = random_pair(n, &mut rng);
                    pairs[i * n + j] += 1;
                }
                let law: Vec<f64> = (0..n * n).map(|k| if k / n == k % n { 0.0 } else { 1.0 / (n * (n - 1)) as f64 }).collect();
                stat::compare(&pairs, &law, &format!("random_pair({n})"))?;
                for (min, max, bounded) in [(1, n, false), (c.min, c.max, true)] {
                    let m = n + 1;
                    let mut counts = vec![0u64; m * m];
                    for _ in 0..c.draws {
                        let r = if bounded { bounded_random_range(n, min, max, &mut rng) } else { random_range(n, &mut rng) };
                        ensure!(r.end <= n && r.start <= r.end, "range {r:?} out of 0..{n}");
                        counts[r.len() * m + r.start] += 1;
                    }
                    let law: Vec<f64> = (0..m * m).map(|k| {
                        let (len, start) = (k / m, k % m);
                        if len < min || len > max || start + len > n { 0.0 } else { 1.0 / ((max - min + 1) * (n - len + 1)) as f64 }
                    }).collect();
                    stat::compare(&counts, &law, &format!("random range n={n} lengths {min}..={max} (outcome = length*{m}+start)"))?;
                }
                obs.nontrivial = true;
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "uniformity_large",
            rule: "60000 draws for n from 10 to 2^64 - 1, quartile bins of pair members, of range length and of relative start, and their remainders modulo a number from 2 to 10; non-trivial: all",
            quick: 1_600,
            thorough: 64_000,
            strat: |_| (prop_oneof![10usize..300, 300usize..(1 << 20), (1usize << 32)..(1 << 40), huge_n()], any::<u64>()).prop_map(|(n, seed)|
                RangeCase { n, min: 1, max: n, seed, script: vec![], draws: 60_000 }).boxed(),
            check: |c, obs| {
                let n = c.n;
                let b = 4usize;
                // Indices i with i * b / m == k.
                let size = |k: usize, m: usize| (((k + 1) as u128 * m as u128).div_ceil(b as u128) - (k as u128 * m as u128).div_ceil(b as u128)) as f64;
                let quarter = |i: usize| (i as u128 * b as u128 / n as u128) as usize;
                let mut rng = TRng::new(c.seed);
                let mut blur = TRng::new(c.seed ^ 0x5555);
                let mut first = vec![0u64; b];
                let mut second = vec![0u64; b];
                let mut less = [0u64; 2];
                let mut lens = vec![0u64; b];
                let mut starts = vec![0u64; b];
                // Low digits are even too: numbers 0..m have (m - k).div_ceil(q) members with remainder k.
                let q = 2 + (c.seed >> 50) as usize % 9.min(n - 1);
                let mut rest = vec![vec![0u64; q]; 3];
                let mut start_rest = vec![0u64; q];
                let share = |k: usize, m: usize| (m - k.min(m)).div_ceil(q) as f64 / m as f64;
                for _ in 0..c.draws {
                    let (i, j) = random_pair(n, &mut rng);
                    rest[0][i % q] += 1;
                    rest[1][j % q] += 1;
                    first[quarter(i)] += 1;
                    second[quarter(j)] += 1;
                    less[(i < j) as usize] += 1;
                    let r = random_range(n, &mut rng);
                    lens[quarter(r.len() - 1)] += 1;
                    rest[2][(r.len() - 1) % q] += 1;
                    // Starts whose number is no multiple of q are skipped, so that the law does not depend on the length.
                    let whole = (n - r.len() + 1) / q * q;
                    if r.start < whole {
                        start_rest[r.start % q] += 1;
                    }
                    // Given the length the start is uniform on 0..slack, so (start + U) / slack is uniform on [0, 1).
                    let slack = (n - r.len() + 1) as f64;
                    let u = (r.start as f64 + blur.gen::<f64>()) / slack;
                    starts[((u * b as f64) as usize).min(b - 1)] += 1;
                }
                let law: Vec<f64> = (0..b).map(|k| size(k, n) / n as f64).collect();
                stat::compare(&first, &law, "first of pair")?;
                stat::compare(&second, &law, "second of pair")?;
                stat::compare(&less, &[0.5, 0.5], "order of pair")?;
                stat::compare(&lens, &law, "range length")?;
                stat::compare(&starts, &[0.25; 4], "relative start given the length")?;
                let law: Vec<f64> = (0..q).map(|k| share(k, n)).collect();
                for (counts, what) in rest.iter().zip(["first of pair", "second of pair", "range length less one"]) {
                    stat::compare(counts, &law, &format!("{what} modulo {q}"))?;
                }
                stat::compare(&start_rest, &vec![1.0 / q as f64; q], &format!("start modulo {q}"))?;
                obs.nontrivial = true;
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "uniformity_ends",
            rule: "60n draws (at least 20000) for n = 8..10000: both members of a pair and their distance; start, end and length of free and of bounded ranges, with the two extreme values at either end on their own, against the exact law; non-trivial: all",
            quick: 600,
            thorough: 24_000,
            strat: |_| (prop_oneof![3 => 8usize..300, 3 => 300usize..3000, 1 => 3000usize..10_000], any::<u64>(), any::<u64>(), any::<u64>(), 0u8..3).prop_map(|(n, a, b, seed, k)| {
                let (a, b) = ((a % (n as u64 + 1)) as usize, (b % (n as u64 + 1)) as usize);
                let (min, max) = match k { 0 => (a, a), 1 => (0, n), _ => (a.min(b), a.max(b)) };
                RangeCase { n, min, max, seed, script: vec![], draws: end_draws(n) }
            }).boxed(),
            check: |c, obs| {
                let n = c.n;
                let mut rng = TRng::new(c.seed);
                let mut pair = [[0u64; END_BINS]; 3];
                for _ in 0..c.draws {
                    let (i, j) = random_pair(n, &mut rng);
                    ensure!(i < n && j < n, "random_pair({n}) gave {:?}", (i, j));
                    pair[0][end_bin(i, n)] += 1;
                    pair[1][end_bin(j, n)] += 1;
                    pair[2][end_bin(i.abs_diff(j), n)] += 1;
                }
                let mut law = [[0.0; END_BINS]; 2];
                for i in 0..n {
                    law[0][end_bin(i, n)] += 1.0 / n as f64;
                    law[1][end_bin(i, n)] += if i == 0 { 0.0 } else { 2.0 * (n - i) as f64 / (n as f64 * (n - 1) as f64) };
                }
                for (k, what) in ["first", "second", "distance"].into_iter().enumerate() {
                    stat::compare(&pair[k], &law[k / 2], &format!("random_pair({n}), {what} (0, 1, lower half, upper half, n-2, n-1)"))?;
                }
                for (min, max, bounded) in [(1, n, false), (c.min, c.max, true)] {
                    // Length relative to the bounds, start, and distance of the end from n.
                    let mut counts = [[0u64; END_BINS]; 3];
                    let span = max - min + 1;
                    for _ in 0..c.draws {
                        let r = if bounded { bounded_random_range(n, min, max, &mut rng) } else { random_range(n, &mut rng) };
                        ensure!(r.end <= n && r.start <= r.end && (min..=max).contains(&r.len()), "range {r:?} for n = {n}, lengths {min}..={max}");
                        counts[0][end_bin(r.len() - min, span)] += 1;
                        counts[1][end_bin(r.start, n + 1)] += 1;
                        counts[2][end_bin(n - r.end, n + 1)] += 1;
                    }
                    let mut law = [[0.0; END_BINS]; 2];
                    // Sum over lengths of 1 / (slack + 1) for the starts 0..=slack, cumulated from the highest start down.
                    let mut tail = 0.0;
                    for i in (0..=n).rev() {
                        let len = n - i;
                        if (min..=max).contains(&len) {
                            tail += 1.0 / (span as f64 * (i + 1) as f64);
                            law[0][end_bin(len - min, span)] += 1.0 / span as f64;
                        }
                        law[1][end_bin(i, n + 1)] += tail;
                    }
                    for (k, what) in ["length", "start", "distance of the end from n"].into_iter().enumerate() {
                        stat::compare(&counts[k], &law[k.min(1)], &format!("random range n={n} lengths {min}..={max}, {what} (0, 1, lower half, upper half, last but one, last)"))?;
                    }
                }
                obs.nontrivial = true;
                Ok(())
            },
        }),
    ]
}

// ---------------------------------------------------------------- C29

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChoiceCase {
    pair: Pair,
    seed: u64,
    draws: usize,
}

fn choice_case(n: BoxedStrategy<usize>, work: usize) -> BoxedStrategy<ChoiceCase> {
    (n, 0u8..6, any::<u64>(), any::<u64>())
        .prop_map(move |(n, edits, shape, seed)| {
            let c = LongCase { n, seed: shape, edits, lo: 0, len: n, picks: vec![] };
            ChoiceCase { pair: c.pair(), seed, draws: (work / n.max(1)).clamp(1_000, 30_000) }
        })
        .boxed()
}

/// The law of the offspring of a crossover that draws its range with `random_range`: outcomes ordered by their first range.
fn range_law(p: &Pair, f: fn(&[u32], &[u32], Range<usize>) -> Vec<u32>, by_length: bool) -> (HashMap<Vec<u32>, usize>, Vec<f64>) {
    let n = p.p1.len();
    let mut ids: HashMap<Vec<u32>, usize> = HashMap::new();
    let mut probs = vec![];
    for i in 0..n {
        for j in 0..n - i {
            let (start, len) = if by_length { (j, i + 1) } else { (i, j + 1) };
            let k = *ids.entry(f(&p.p1, &p.p2, start..start + len)).or_insert_with(|| {
                probs.push(0.0);
                probs.len() - 1
            });
            probs[k] += 1.0 / (n as f64 * (n - len + 1) as f64);
        }
    }
    (ids, probs)
}

/// The law of GPX2 offspring when every next partition is drawn evenly from the remaining ones.
fn partition_law(done: &[u32], rest: &[Vec<u32>], p: f64, law: &mut std::collections::BTreeMap<Vec<u32>, f64>) {
    if rest.is_empty() {
        *law.entry(done.to_vec()).or_default() += p;
        return;
    }
    for (i, x) in rest.iter().enumerate() {
        let mut next = done.to_vec();
        next.extend(x);
        let left: Vec<Vec<u32>> = rest.iter().enumerate().filter(|(j, _)| *j != i)
            .map(|(_, y)| y.iter().copied().filter(|g| !x.contains(g)).collect::<Vec<_>>())
            .filter(|y| !y.is_empty()).collect();
        partition_law(&next, &left, p / rest.len() as f64, law);
    }
}

fn c29() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "pivots",
            rule: "first gene of 1000..30000 offspring of the SCX and ERX strategies on genomes of 1..80 (sometimes 300) genes against the even law over the genes; non-trivial: at least two genes",
            quick: 400,
            thorough: 16_000,
            strat: |_| choice_case(prop_oneof![40 => 1usize..12, 20 => 12usize..80, 1 => 80usize..300].boxed(), 200_000),
            check: |c, obs| {
                let (a, b) = (genes(&c.pair.p1), genes(&c.pair.p2));
                let n = a.len();
                let at: HashMap<u32, usize> = c.pair.p1.iter().enumerate().map(|(i, g)| (*g, i)).collect();
                for s in [CrossoverStrategy::SequentialConstructive, CrossoverStrategy::EdgeRecombination] {
                    let mut counts = vec![0u64; n];
                    let mut rng = TRng::new(c.seed);
                    for _ in 0..c.draws {
                        let child = run(n, "strategy", || s.crossover(&a, &b, &mut rng))?;
                        let Some(i) = child.first().and_then(|g| at.get(&g.0)) else {
                            return Err(format!("{s:?} of {:?} and {:?} gave {:?}", c.pair.p1, c.pair.p2, raw(&child)));
                        };
                        counts[*i] += 1;
                    }
                    stat::compare(&counts, &vec![1.0 / n as f64; n], &format!("first gene (by position in the first parent) of {s:?} offspring of {n} genes"))?;
                }
                obs.nontrivial_if(n >= 2);
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "split_points",
            rule: "split point of 1000..30000 offspring of the single-point strategy on genomes of 1..300 (sometimes 5000) genes against the even law over the positions; non-trivial: at least two genes",
            quick: 1_000,
            thorough: 40_000,
            strat: |_| choice_case(prop_oneof![20 => 1usize..12, 10 => 12usize..300, 1 => 300usize..5000].boxed(), 1_000_000),
            check: |c, obs| {
                let n = c.pair.p1.len();
                let a: Vec<u32> = vec![0; n];
                let b: Vec<u32> = vec![1; n];
                let mut counts = vec![0u64; n];
                let mut rng = TRng::new(c.seed);
                for _ in 0..c.draws {
                    let child = run(n, "SPX", || CrossoverStrategy::SinglePoint.crossover(&a, &b, &mut rng))?;
                    let k = child.iter().filter(|x| **x == 0).count();
                    ensure!(k < n && child.len() == n && child[k..].iter().all(|x| *x == 1), "single point strategy on {n} genes split at {k}: {child:?}");
                    counts[k] += 1;
                }
                obs.nontrivial_if(n >= 2);
                stat::compare(&counts, &vec![1.0 / n as f64; n], &format!("split point of single-point offspring of {n} genes"))
            },
        }),
        Box::new(Prop {
            name: "ranges",
            rule: "1000..30000 offspring of the PMX and OX strategies on genomes of 1..60 (sometimes 300) genes against the law that follows from random_range and the reference crossover, ordered by start and by length of the range; non-trivial: at least two possible outcomes",
            quick: 600,
            thorough: 24_000,
            strat: |_| choice_case(prop_oneof![20 => 1usize..10, 20 => 10usize..60, 1 => 60usize..300].boxed(), 1_000_000),
            check: |c, obs| {
                let (a, b) = (genes(&c.pair.p1), genes(&c.pair.p2));
                let n = a.len();
                for (k, (s, f)) in [
                    (CrossoverStrategy::PartiallyMapped, ref_pmx as fn(&[u32], &[u32], Range<usize>) -> Vec<u32>),
                    (CrossoverStrategy::Order, ref_ox),
                ].into_iter().enumerate() {
                    let laws = [range_law(&c.pair, f, false), range_law(&c.pair, f, true)];
                    let mut counts = [vec![0u64; laws[0].1.len()], vec![0u64; laws[1].1.len()]];
                    let mut rng = TRng::new(c.seed ^ k as u64);
                    for _ in 0..c.draws {
                        let child = raw(&run(n, "strategy", || s.crossover(&a, &b, &mut rng))?);
                        for i in 0..2 {
                            let Some(&x) = laws[i].0.get(&child) else {
                                return Err(format!("{s:?} strategy of {:?} and {:?} gave {child:?}, the offspring of no range", c.pair.p1, c.pair.p2));
                            };
                            counts[i][x] += 1;
                        }
                    }
                    for i in 0..2 {
                        stat::compare(&counts[i], &laws[i].1, &format!("{s:?} offspring of {n} genes, outcomes ordered by the {} of the range", ["start", "length"][i]))?;
                    }
                    obs.nontrivial_if(laws[0].1.len() >= 2);
                }
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "partition_order",
            rule: "20000 GPX2 strategy offspring of genomes of 1..7 genes against the law of drawing every next partition evenly; non-trivial: at least two possible outcomes",
            quick: 1_200,
            thorough: 48_000,
            strat: |_| (perm_pair(7), any::<u64>()).prop_map(|(pair, seed)| ChoiceCase { pair, seed, draws: 20_000 }).boxed(),
            check: |c, obs| {
                let (a, b) = (genes(&c.pair.p1), genes(&c.pair.p2));
                let n = a.len();
                let parts: Vec<Vec<u32>> = common_partitions(&a, &b).iter().map(|p| raw(p)).collect();
                let mut law = Default::default();
                partition_law(&[], &parts, 1.0, &mut law);
                let ids: HashMap<&Vec<u32>, usize> = law.keys().enumerate().map(|(i, k)| (k, i)).collect();
                let probs: Vec<f64> = law.values().copied().collect();
                let mut counts = vec![0u64; probs.len()];
                let mut rng = TRng::new(c.seed);
                for _ in 0..c.draws {
                    let child = raw(&run(n, "GPX2", || CrossoverStrategy::GeneralizedPartition2.crossover(&a, &b, &mut rng))?);
                    let Some(&i) = ids.get(&child) else {
                        return Err(format!("GPX2 strategy of {:?} and {:?} gave {child:?}, no sequence of the partitions {parts:?}", c.pair.p1, c.pair.p2));
                    };
                    counts[i] += 1;
                }
                obs.nontrivial_if(probs.len() >= 2);
                obs.label(format!("{} partitions", parts.len()));
                stat::compare(&counts, &probs, &format!("GPX2 offspring of {:?} and {:?} with partitions {parts:?}", c.pair.p1, c.pair.p2))
            },
        }),
        Box::new(Prop {
            name: "first_partition",
            rule: "first gene of 1000..20000 GPX2 strategy offspring of genomes of 8..120 genes against the law of drawing the first partition evenly; non-trivial: at least two partitions",
            quick: 400,
            thorough: 16_000,
            strat: |_| choice_case(prop_oneof![6 => 8usize..40, 1 => 40usize..120].boxed(), 200_000),
            check: |c, obs| {
                let (a, b) = (genes(&c.pair.p1), genes(&c.pair.p2));
                let n = a.len();
                let parts = common_partitions(&a, &b);
                let mut law: std::collections::BTreeMap<u32, f64> = Default::default();
                for p in &parts {
                    *law.entry(p[0].0).or_default() += 1.0 / parts.len() as f64;
                }
                let ids: HashMap<u32, usize> = law.keys().enumerate().map(|(i, k)| (*k, i)).collect();
                let mut counts = vec![0u64; law.len()];
                let mut rng = TRng::new(c.seed);
                for _ in 0..c.draws.min(20_000) {
                    let child = run(n, "GPX2", || CrossoverStrategy::GeneralizedPartition2.crossover(&a, &b, &mut rng))?;
                    let Some(&i) = child.first().and_then(|g| ids.get(&g.0)) else {
                        return Err(format!("GPX2 strategy of {:?} and {:?} gave {:?}, which starts with no partition", c.pair.p1, c.pair.p2, raw(&child)));
                    };
                    counts[i] += 1;
                }
                obs.nontrivial_if(parts.len() >= 2);
                let probs: Vec<f64> = law.values().copied().collect();
                stat::compare(&counts, &probs, &format!("first partition of GPX2 offspring of {n} genes with {} partitions", parts.len()))
            },
        }),
        Box::new(Prop {
            name: "pivot_ends",
            rule: "first gene of 60n offspring of the SCX (and, up to 150 genes, ERX) strategy on genomes of 8..150 (sometimes 300) genes: first, second, last but one and last gene of the first parent on their own, against the even law; non-trivial: all",
            quick: 60,
            thorough: 2_400,
            strat: |_| choice_case(prop_oneof![4 => 8usize..60, 4 => 60usize..150, 1 => 150usize..300].boxed(), 1),
            check: |c, obs| {
                let (a, b) = (genes(&c.pair.p1), genes(&c.pair.p2));
                let n = a.len();
                let mut at = vec![0; n];
                c.pair.p1.iter().enumerate().for_each(|(i, g)| at[*g as usize] = i);
                let mut law = [0.0; END_BINS];
                (0..n).for_each(|i| law[end_bin(i, n)] += 1.0 / n as f64);
                for s in [CrossoverStrategy::SequentialConstructive, CrossoverStrategy::EdgeRecombination] {
                    if s == CrossoverStrategy::EdgeRecombination && n > 150 {
                        continue; // too slow for that many offspring
                    }
                    let mut counts = [0u64; END_BINS];
                    let mut rng = TRng::new(c.seed);
                    for _ in 0..60 * n {
                        let child = run(n, "strategy", || s.crossover(&a, &b, &mut rng))?;
                        let Some(&i) = child.first().and_then(|g| at.get(g.0 as usize)) else {
                            return Err(format!("{s:?} of {:?} and {:?} gave {:?}", c.pair.p1, c.pair.p2, raw(&child)));
                        };
                        counts[end_bin(i, n)] += 1;
                    }
                    stat::compare(&counts, &law, &format!("first gene of {s:?} offspring of {n} genes, by position in the first parent (0, 1, lower half, upper half, n-2, n-1)"))?;
                }
                obs.nontrivial = true;
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "split_ends",
            rule: "split point of 60n (at least 20000) offspring of the single-point strategy on genomes of 8..300 (sometimes 3000) genes: the two extreme points at either end on their own, against the even law; non-trivial: all",
            quick: 300,
            thorough: 12_000,
            strat: |_| choice_case(prop_oneof![6 => 8usize..300, 2 => 300usize..3000].boxed(), 1),
            check: |c, obs| {
                let n = c.pair.p1.len();
                let (a, b) = (vec![0u8; n], vec![1u8; n]);
                let mut law = [0.0; END_BINS];
                (0..n).for_each(|i| law[end_bin(i, n)] += 1.0 / n as f64);
                let mut counts = [0u64; END_BINS];
                let mut rng = TRng::new(c.seed);
                for _ in 0..end_draws(n) {
                    let child = run(n, "SPX", || CrossoverStrategy::SinglePoint.crossover(&a, &b, &mut rng))?;
                    let k = child.iter().filter(|x| **x == 0).count();
                    ensure!(k < n && child.len() == n, "single point strategy on {n} genes split at {k}: {child:?}");
                    counts[end_bin(k, n)] += 1;
                }
                obs.nontrivial = true;
                stat::compare(&counts, &law, &format!("split point of single-point offspring of {n} genes (0, 1, lower half, upper half, n-2, n-1)"))
            },
        }),
        Box::new(Prop {
            name: "range_ends",
            rule: "60n (at least 20000) offspring of the PMX and OX strategies on genomes of 8..100 (sometimes 250) genes: first, last and number of genes at their place in the first parent, with the extreme values on their own, against the law that follows from random_range and the reference crossover; non-trivial: all",
            quick: 120,
            thorough: 4_800,
            strat: |_| choice_case(prop_oneof![12 => 8usize..60, 6 => 60usize..100, 1 => 100usize..250].boxed(), 1),
            check: |c, obs| {
                let (a, b) = (genes(&c.pair.p1), genes(&c.pair.p2));
                let n = a.len();
                let keys = |same: &mut dyn Iterator<Item = bool>| {
                    let (mut first, mut last, mut count) = (n, n, 0);
                    for (i, _) in same.enumerate().filter(|(_, x)| *x) {
                        first = first.min(i);
                        last = i;
                        count += 1;
                    }
                    [end_bin(first, n + 1), end_bin(last, n + 1), end_bin(count, n + 1)]
                };
                for (k, (s, f)) in [
                    (CrossoverStrategy::PartiallyMapped, ref_pmx as fn(&[u32], &[u32], Range<usize>) -> Vec<u32>),
                    (CrossoverStrategy::Order, ref_ox),
                ].into_iter().enumerate() {
                    let mut law = [[0.0; END_BINS]; 3];
                    for len in 1..=n {
                        for start in 0..=n - len {
                            let child = f(&c.pair.p1, &c.pair.p2, start..start + len);
                            let key = keys(&mut child.iter().zip(&c.pair.p1).map(|(x, y)| x == y));
                            (0..3).for_each(|i| law[i][key[i]] += 1.0 / (n as f64 * (n - len + 1) as f64));
                        }
                    }
                    let mut counts = [[0u64; END_BINS]; 3];
                    let mut rng = TRng::new(c.seed ^ k as u64);
                    for _ in 0..end_draws(n) {
                        let child = run(n, "strategy", || s.crossover(&a, &b, &mut rng))?;
                        ensure!(child.len() == n, "{s:?} strategy on {n} genes gave {} genes", child.len());
                        let key = keys(&mut child.iter().zip(&a).map(|(x, y)| x == y));
                        (0..3).for_each(|i| counts[i][key[i]] += 1);
                    }
                    for (i, what) in ["first", "last", "number of"].into_iter().enumerate() {
                        stat::compare(&counts[i], &law[i], &format!("{what} kept genes of {s:?} offspring of {n} genes"))?;
                    }
                }
                obs.nontrivial = true;
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "partition_ends",
            rule: "first gene of 60m GPX2 strategy offspring of genomes of 40..250 genes with m partitions: first, second, last but one and last partition on their own, against the even law; non-trivial: at least 20 partitions",
            quick: 60,
            thorough: 2_400,
            strat: |_| (40usize..250, 0u8..7, any::<u64>(), any::<u64>()).prop_map(|(n, shape, x, seed)| {
                // Partitions are many when neighbours of one parent are no neighbours in the other.
                let mut r = TRng::new(x);
                let mut p1: Vec<u32> = (0..n as u32).collect();
                p1.shuffle(&mut r);
                let mut p2 = p1.clone();
                match shape {
                    1 => p2 = (0..2).flat_map(|k| p1.iter().copied().skip(k).step_by(2).collect::<Vec<_>>()).collect(),
                    2 => p2.reverse(),
                    3 => p2.chunks_mut(4).for_each(|w| w.reverse()),
                    _ => p2.shuffle(&mut r),
                }
                ChoiceCase { pair: Pair { p1, p2 }, seed, draws: 0 }
            }).boxed(),
            check: |c, obs| {
                let (a, b) = (genes(&c.pair.p1), genes(&c.pair.p2));
                let n = a.len();
                let parts = common_partitions(&a, &b);
                let m = parts.len();
                let mut ids: HashMap<u32, usize> = HashMap::new();
                for (i, p) in parts.iter().enumerate() {
                    ensure!(!p.is_empty(), "empty partition of {:?} and {:?}", c.pair.p1, c.pair.p2);
                    ids.entry(p[0].0).or_insert(i);
                }
                let mut law = [0.0; END_BINS];
                for p in &parts {
                    law[end_bin(ids[&p[0].0], m)] += 1.0 / m as f64;
                }
                let mut counts = [0u64; END_BINS];
                let mut rng = TRng::new(c.seed);
                for _ in 0..60 * m {
                    let child = run(n, "GPX2", || CrossoverStrategy::GeneralizedPartition2.crossover(&a, &b, &mut rng))?;
                    let Some(&i) = child.first().and_then(|g| ids.get(&g.0)) else {
                        return Err(format!("GPX2 strategy of {:?} and {:?} gave {:?}, which starts with no partition", c.pair.p1, c.pair.p2, raw(&child)));
                    };
                    counts[end_bin(i, m)] += 1;
                }
                obs.nontrivial_if(m >= 20);
                obs.label(format!("{} or more partitions", m / 50 * 50));
                stat::compare(&counts, &law, &format!("first partition of GPX2 offspring of {n} genes with {m} partitions (0, 1, lower half, upper half, last but one, last)"))
            },
        }),
        Box::new(Prop {
            name: "choices_large",
            rule: "genomes beyond the sizes above, one strategy per case: split point of 1500 single-point offspring of 300..70000 genes, pivot of 250 SCX (300..3000 genes) or ERX (300..600) offspring, range of 250 PMX or OX offspring (300..4000), first partition of 250 GPX2 offspring (250..700), by quarters, against the law; non-trivial: all",
            quick: 48,
            thorough: 1_920,
            strat: |_| (0usize..6, any::<u32>(), any::<u64>()).prop_map(|(kind, x, seed)| {
                let (lo, hi) = [(300, 70_000), (300, 3000), (300, 600), (300, 4000), (300, 4000), (250, 700)][kind];
                LargeChoice { kind, n: lo + x as usize % (hi - lo), seed }
            }).boxed(),
            check: c29_large,
        }),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LargeChoice {
    kind: usize,
    n: usize,
    seed: u64,
}

fn c29_large(c: &LargeChoice, obs: &mut Obs) -> CheckResult {
    let n = c.n;
    let mut rng = TRng::new(c.seed);
    let Pair { p1, p2 } = LongCase { n, seed: c.seed, edits: 0, lo: 0, len: n, picks: vec![] }.pair();
    let quarter = |i: usize| i * 4 / n;
    let s = [
        CrossoverStrategy::SinglePoint,
        CrossoverStrategy::SequentialConstructive,
        CrossoverStrategy::EdgeRecombination,
        CrossoverStrategy::PartiallyMapped,
        CrossoverStrategy::Order,
        CrossoverStrategy::GeneralizedPartition2,
    ][c.kind];
    // What the child shows of the choice: up to three numbers below n.
    let mut at: HashMap<u32, usize> = p1.iter().enumerate().map(|(i, g)| (*g, i)).collect();
    let mut even = vec![0.0; 4];
    (0..n).for_each(|i| even[quarter(i)] += 1.0 / n as f64);
    let mut laws = vec![even];
    match c.kind {
        3 | 4 => {
            let mut starts = vec![0.0; 4];
            let mut ends = vec![0.0; 4];
            let mut tail = 0.0;
            for i in (0..n).rev() {
                tail += 1.0 / (n as f64 * (i + 1) as f64);
                starts[quarter(i)] += tail;
                ends[quarter(n - 1 - i)] += tail;
            }
            laws.extend([starts, ends]);
        }
        5 => {
            let parts = common_partitions(&p1, &p2);
            at.clear();
            let mut law = vec![0.0; 4];
            for (i, p) in parts.iter().enumerate() {
                let at = *at.entry(p[0]).or_insert(i * n / parts.len());
                law[quarter(at)] += 1.0 / parts.len() as f64;
            }
            laws = vec![law];
        }
        _ => {}
    }
    let mut counts = vec![vec![0u64; 4]; laws.len()];
    for _ in 0..if c.kind == 0 { 1500 } else { 250 } {
        let child = catch(|| s.crossover(&p1, &p2, &mut rng)).map_err(|e| format!("{s:?} of {n} genes: {e}"))?;
        ensure!(child.len() == n, "{s:?} of {n} genes gave {}", child.len());
        let shown = match c.kind {
            0 => vec![child.iter().zip(&p1).position(|(x, y)| x != y).unwrap_or(n - 1)],
            3 | 4 => {
                // The range is the longest run of genes in the place they have in the first parent.
                let (mut best, mut start) = (0..0, 0);
                for i in 0..=n {
                    if i == n || child[i] != p1[i] {
                        if i - start > best.len() {
                            best = start..i;
                        }
                        start = i + 1;
                    }
                }
                ensure!(!best.is_empty(), "{s:?} of {n} genes kept no gene of the first parent");
                vec![best.len() - 1, best.start, best.end - 1]
            }
            _ => match at.get(&child[0]) {
                Some(i) => vec![*i],
                None => return Err(format!("{s:?} of {n} genes starts with {}", child[0])),
            },
        };
        for (k, i) in shown.into_iter().enumerate() {
            counts[k][quarter(i)] += 1;
        }
    }
    obs.nontrivial = true;
    obs.label(format!("{s:?}"));
    for (k, what) in ["choice", "start", "end"].into_iter().enumerate().take(laws.len()) {
        stat::compare(&counts[k], &laws[k], &format!("{what} of {s:?} offspring of {n} genes, in quarters (for a range the choice is its length)"))?;
    }
    Ok(())
}
