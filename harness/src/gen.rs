//! Shared generators and instrumented types.
use proptest::collection::vec;
use proptest::prelude::*;
use rand::{Error, Rng as _, RngCore, SeedableRng};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::hash::{Hash, Hasher};

thread_local! {
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
}

#[inline]
fn tick() {
    FUEL.with(|f| {
        let v = f.get();
        if v == 0 {
            f.set(u64::MAX);
            panic!("bounded work exceeded: the operation does not terminate");
        }
        f.set(v - 1);
    });
}

/// Runs `f` allowing at most `n` gene comparisons / hashes.
pub fn with_fuel<T>(n: u64, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            FUEL.with(|f| f.set(u64::MAX));
        }
    }
    let _r = Reset;
    FUEL.with(|f| f.set(n));
    f()
}

pub fn fuel_for(n: usize) -> u64 {
    let n = n as u64 + 4;
    20_000 + 60 * n * n * n
}

/// A gene whose comparisons are counted, so that runaway loops become a panic instead of a hang.
#[derive(Clone, Copy, Debug)]
pub struct Gene(pub u32);
impl PartialEq for Gene {
    #[inline]
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Eq for Gene {}
impl PartialOrd for Gene {
    #[inline]
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        tick();
        self.0.partial_cmp(&o.0)
    }
}
impl Hash for Gene {
    #[inline]
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        self.0.hash(h)
    }
}

/// A gene type made from a number.
pub trait Label: Copy + PartialOrd + Eq + Hash + std::fmt::Debug {
    fn of(x: u32) -> Self;
    fn raw(self) -> u32;
}
impl Label for Gene {
    fn of(x: u32) -> Self {
        Gene(x)
    }
    fn raw(self) -> u32 {
        self.0
    }
}

/// A gene whose order is only partial: a point of a plane is less than another if no coordinate is greater.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Point(Gene, Gene);
impl Label for Point {
    fn of(x: u32) -> Self {
        // Neighbouring numbers are often incomparable.
        Point(Gene(x / 8), Gene(7 - x % 8))
    }
    fn raw(self) -> u32 {
        self.0 .0 * 8 + 7 - self.1 .0
    }
}
impl PartialOrd for Point {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::Equal;
        match (self.0.partial_cmp(&o.0)?, self.1.partial_cmp(&o.1)?) {
            (x, y) if x == y || y == Equal => Some(x),
            (Equal, y) => Some(y),
            _ => None,
        }
    }
}

/// A gene without any order, all of one hash.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Name(Gene);
impl Label for Name {
    fn of(x: u32) -> Self {
        Name(Gene(x))
    }
    fn raw(self) -> u32 {
        self.0 .0
    }
}
impl PartialOrd for Name {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        (self == o).then_some(std::cmp::Ordering::Equal)
    }
}
impl Hash for Name {
    fn hash<H: Hasher>(&self, h: &mut H) {
        0u8.hash(h)
    }
}

/// A large gene that differs from others in the middle only.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd)]
pub struct Wide([u64; 5], Gene, [u64; 5]);
impl Label for Wide {
    fn of(x: u32) -> Self {
        Wide([7; 5], Gene(x), [u64::MAX; 5])
    }
    fn raw(self) -> u32 {
        self.1 .0
    }
}

pub fn labels<G: Label>(v: &[u32]) -> Vec<G> {
    v.iter().map(|&x| G::of(x)).collect()
}

pub fn genes(v: &[u32]) -> Vec<Gene> {
    v.iter().map(|&x| Gene(x)).collect()
}
pub fn raw(v: &[Gene]) -> Vec<u32> {
    v.iter().map(|g| g.0).collect()
}

/// Generator that first replays scripted outputs, then a seeded stream, and counts its draws.
#[derive(Clone, Debug)]
pub struct TRng {
    pub script: Vec<u64>,
    pub pos: usize,
    pub inner: rand::rngs::SmallRng,
    pub draws: u64,
    pub max_draws: u64,
}
impl TRng {
    pub fn new(seed: u64) -> Self {
        Self::scripted(seed, Vec::new())
    }
    pub fn scripted(seed: u64, script: Vec<u64>) -> Self {
        TRng { script, pos: 0, inner: rand::rngs::SmallRng::seed_from_u64(seed), draws: 0, max_draws: 50_000_000 }
    }
    /// A fingerprint of the state (next outputs of a copy).
    pub fn fingerprint(&self) -> [u64; 2] {
        let mut c = self.clone();
        c.draws = 0;
        [c.gen(), c.gen()]
    }
}
impl RngCore for TRng {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    #[inline]
    fn next_u64(&mut self) -> u64 {
        self.draws += 1;
        if self.draws > self.max_draws {
            panic!("bounded work exceeded: too many random draws");
        }
        if self.pos < self.script.len() {
            self.pos += 1;
            return self.script[self.pos - 1];
        }
        self.inner.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        rand_fill(self, dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
fn rand_fill(r: &mut TRng, dest: &mut [u8]) {
    for c in dest.chunks_mut(8) {
        let b = r.next_u64().to_le_bytes();
        c.copy_from_slice(&b[..c.len()]);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Pair {
    pub p1: Vec<u32>,
    pub p2: Vec<u32>,
}

pub fn genome_len(max: usize) -> BoxedStrategy<usize> {
    let mid = max.min(80);
    prop_oneof![
        3 => 0usize..=8.min(max),
        4 => 2usize..=24.min(max),
        2 => 16.min(mid)..=mid,
        1 => mid..=max,
    ]
    .boxed()
}

fn label(mode: u8, n: usize, i: usize) -> u32 {
    match mode {
        0 => i as u32,
        1 => (n - 1 - i) as u32,
        2 => (i as u32).wrapping_mul(2654435761).wrapping_add(12345),
        _ => u32::MAX - i as u32,
    }
}

/// Applies structured edits to a genome, so that parents share anything from nothing to almost everything.
pub fn edit<T>(v: &mut [T], ops: &[(u8, u16, u16)]) {
    let n = v.len();
    if n == 0 {
        return;
    }
    for &(k, a, b) in ops {
        let (a, b) = (a as usize % n, b as usize % n);
        let (lo, hi) = (a.min(b), a.max(b));
        match k % 6 {
            0 => v.swap(a, b),
            1 => v[lo..=hi].reverse(),
            2 => v.rotate_left(a),
            3 => v[lo..=hi].rotate_left(1),
            4 => v[lo..=hi].rotate_right((hi - lo + 1) / 2),
            _ => v.reverse(),
        }
    }
}

pub fn perm_pair(max: usize) -> BoxedStrategy<Pair> {
    (genome_len(max), 0u8..4)
        .prop_flat_map(|(n, mode)| {
            let base: Vec<u32> = (0..n).map(|i| label(mode, n, i)).collect();
            let first = prop_oneof![1 => Just(base.clone()), 3 => Just(base).prop_shuffle()];
            let ops = vec((0u8..6, any::<u16>(), any::<u16>()), 0..8);
            (first, ops, prop::bool::weighted(0.4))
        })
        .prop_flat_map(|(p1, ops, shuffle)| {
            let second = if shuffle {
                Just(p1.clone()).prop_shuffle().boxed()
            } else {
                let mut q = p1.clone();
                edit(&mut q, &ops);
                Just(q).boxed()
            };
            (Just(p1), second).prop_map(|(p1, p2)| Pair { p1, p2 })
        })
        .boxed()
}

/// All permutations of 0..n in lexicographic order.
pub fn all_perms(n: usize) -> Vec<Vec<u32>> {
    fn rec(rest: &mut Vec<u32>, cur: &mut Vec<u32>, out: &mut Vec<Vec<u32>>) {
        if rest.is_empty() {
            out.push(cur.clone());
            return;
        }
        for i in 0..rest.len() {
            let x = rest.remove(i);
            cur.push(x);
            rec(rest, cur, out);
            cur.pop();
            rest.insert(i, x);
        }
    }
    let mut out = Vec::new();
    rec(&mut (0..n as u32).collect(), &mut Vec::new(), &mut out);
    out
}

/// Small exhaustive space of parent pairs: every pair up to `both`, identity against everything up to `one`.
pub fn all_pairs(both: usize, one: usize) -> Box<dyn Iterator<Item = Pair>> {
    Box::new((0..=one).flat_map(move |n| {
        let perms = all_perms(n);
        let firsts = if n <= both { perms.clone() } else { vec![perms[0].clone()] };
        firsts.into_iter().flat_map(move |p1| {
            let perms = perms.clone();
            perms.into_iter().map(move |p2| Pair { p1: p1.clone(), p2 })
        })
    }))
}

pub fn sorted(v: &[u32]) -> Vec<u32> {
    let mut v = v.to_vec();
    v.sort_unstable();
    v
}

/// A population of these individuals that has been through generations and stagnation derived from the seed
/// (often none, sometimes thousands).
pub fn aged<I: rusty_genes::Individual>(list: Vec<I>, seed: u64) -> rusty_genes::Population<I> {
    let h = crate::engine::mix(seed ^ 0xa6ed);
    let gens = match h % 100 {
        0..=64 => 0,
        65..=89 => 1 + (h >> 8) % 20,
        90..=98 => 20 + (h >> 8) % 300,
        _ => 300 + (h >> 8) % 3000,
    };
    if gens == 0 || list.is_empty() {
        return rusty_genes::Population::new(list);
    }
    let stagnant = match (h >> 40) % 4 {
        0 => 0,
        1 | 2 => gens,
        _ => (h >> 44) % (gens + 1),
    };
    let by = |a: &&I, b: &&I| a.fitness().total_cmp(&b.fitness());
    let (worst, best) = (list.iter().min_by(by).unwrap().clone(), list.iter().max_by(by).unwrap().clone());
    let mut pop = rusty_genes::Population::new(vec![if stagnant == gens { best.clone() } else { worst.clone() }]);
    let mut other = vec![];
    for g in 1..gens {
        other.clear();
        other.push(if g + stagnant >= gens { best.clone() } else { worst.clone() });
        pop.replace(&mut other);
    }
    let mut list = list;
    pop.replace(&mut list);
    pop
}

/// Log-ish uniform f64 with sign options.
pub fn wide_f64(lo_exp: i32, hi_exp: i32) -> BoxedStrategy<f64> {
    (lo_exp..=hi_exp, 1.0f64..10.0).prop_map(|(e, m)| m * 10f64.powi(e)).boxed()
}
