//! C31: evolutions (and operators) do not influence each other.
use crate::engine::*;
use crate::ensure;
use crate::evo::{self, *};
use crate::gen::{aged, raw, genes, perm_pair, TRng};
use crate::sel::{any_fitness, any_strategy, mocks, Mock, S};
use proptest::collection::vec;
use proptest::prelude::*;
use rusty_genes::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

pub fn subs(prop: &str) -> Option<(Vec<Box<dyn Sub>>, &'static [&'static str])> {
    match prop {
        "C31" => Some((c31(), &[
            "nested runs use another evolution instance: running the same instance again inside its own progress closure is not covered",
            "edge recombination, which may break ties differently each time, is left out of the comparison of operators",
        ])),
        _ => None,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nested {
    outer: EvoCase,
    inner: EvoCase,
    place: usize,
    every: usize,
    most: usize,
}

fn small(max_size: usize, max_gens: usize) -> BoxedStrategy<EvoCase> {
    (evo_case(true), rate_hooks(6), any::<u8>())
        .prop_map(move |(mut c, hooks, k)| {
            c.threads = 1;
            c.size = (c.size - 1) % max_size + 1;
            c.gens = c.gens.min(max_gens);
            if let Start::Population(v) = &mut c.start {
                v.truncate(max_size + 4);
            }
            if let Alg::Custom { sizes, .. } = &mut c.alg {
                for s in sizes {
                    *s = (*s).min(max_size);
                }
            }
            c.cfg.len = c.cfg.len.max(1);
            if k % 3 == 0 {
                c.cfg.hooks = hooks;
                if let Some(h) = c.cfg.hooks.first_mut() {
                    h.swap = Some(c.strategy.clone());
                }
            }
            if k % 8 == 1 {
                c.cfg.panic_at = 1 + (c.seed >> 5) % 60;
            }
            c
        })
        .boxed()
}

fn nested_case(outer_size: usize) -> BoxedStrategy<Nested> {
    (small(outer_size, 7), small(10, 4), 0usize..PLACES.len(), 1usize..12, 1usize..6, any::<u8>())
        .prop_map(|(outer, mut inner, place, every, most, share)| {
            // Some nested runs are much like the surrounding one.
            if share & 1 != 0 {
                inner.strategy = outer.strategy.clone();
            }
            if share & 6 == 6 {
                inner.cfg = outer.cfg.clone();
                if !matches!(inner.start, Start::Random) {
                    inner.start = Start::Random;
                }
            }
            if share & 24 == 24 {
                inner.alg = outer.alg.clone();
            }
            if share & 96 == 96 {
                inner.seed = outer.seed;
            }
            Nested { outer, inner, place, every, most }
        })
        .boxed()
}

/// Runs `c` with `probe` called in the operations of its model.
fn run_probed(c: &EvoCase, shared: &Arc<Shared>) -> Trace {
    if c.overriding {
        Inst::<TMO>::new(c, shared).run(c, shared)
    } else {
        Inst::<TM>::new(c, shared).run(c, shared)
    }
}

/// Runs the outer case with inner runs inside; returns its trace and those of the inner runs.
fn run_nested(c: &Nested) -> (Trace, Vec<Trace>) {
    let shared = Shared::new(c.outer.cfg.clone());
    let traces: Arc<Mutex<Vec<Trace>>> = Arc::default();
    let calls = AtomicUsize::new(0);
    let (n, t) = (c.clone(), traces.clone());
    shared.set_probe(move |place| {
        if place == n.place {
            let k = calls.fetch_add(1, Ordering::Relaxed);
            if k % n.every == 0 && k / n.every < n.most {
                let trace = run_case(&n.inner);
                t.lock().unwrap().push(trace);
            }
        }
    });
    let outer = run_probed(&c.outer, &shared);
    let traces = std::mem::take(&mut *traces.lock().unwrap());
    (outer, traces)
}

/// Guarantees that hold for a finished run under every schedule.
fn sound(c: &EvoCase, t: &Trace, what: &str) -> CheckResult {
    if let evo::Outcome::Panicked(m) = &t.outcome {
        let created = t.snaps.is_empty();
        ensure!(created || c.cfg.panic_at != 0, "{what}: ended with {m}");
        return Ok(());
    }
    let problem = t.snaps.iter().flat_map(|s| &s.events).chain(&t.tail).find(|e| matches!(e, Ev::Problem(_)));
    ensure!(problem.is_none(), "{what}: {problem:?}");
    ensure!(t.snaps.len() == c.gens + 1 && t.tail.is_empty(), "{what}: {} progress calls instead of {}", t.snaps.len(), c.gens + 1);
    for s in &t.snaps {
        check_population(c, s, &format!("{what}: generation {}", s.generation))?;
    }
    for w in t.snaps.windows(2) {
        check_refill(c, &w[0], &w[1]).map_err(|m| format!("{what}: {m}"))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shared2 {
    fit: Vec<f64>,
    age: u64,
    strategies: Vec<S>,
    seed: u64,
    threads: usize,
    genomes: Vec<crate::gen::Pair>,
    other: Vec<f64>,
}

fn picks(m: &dyn SelectionMechanism<Mock, TRng>, p: &Population<Mock>, seed: u64) -> Vec<usize> {
    let mut rng = TRng::new(seed);
    (0..60)
        .map(|k| if k % 3 == 2 { m.select_distinct(p, &mut rng, 3, &p[k % p.len()]).map_or(usize::MAX, |x| x.0) } else { m.select(p, &mut rng).0 })
        .collect()
}

/// Everything the operators make of a pair of genomes with one generator.
fn operators(pair: &crate::gen::Pair, seed: u64) -> Vec<Result<Vec<u32>, String>> {
    use CrossoverStrategy::*;
    use MutationStrategy::*;
    let mut rng = TRng::new(seed);
    let (a, b) = (genes(&pair.p1), genes(&pair.p2));
    let mut out = vec![];
    for s in [GeneralizedPartition2, SequentialConstructive, PartiallyMapped, Order, Cycle, SinglePoint] {
        out.push(catch(|| raw(&s.crossover(&a, &b, &mut rng))));
    }
    for s in [Swap, Scramble, Inversion, Insertion, Duplicate] {
        let mut g = a.clone();
        out.push(catch(|| {
            s.mutate(&mut g, &mut rng);
            raw(&g)
        }));
    }
    out.push(catch(|| common_partitions(&a, &b).iter().flat_map(|p| raw(p).into_iter().chain([u32::MAX])).collect()));
    out
}

fn c31() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Prop {
            name: "nested",
            rule: "an evolution runs inside an operation of another one's model, its selector, its hook or its progress closure (1 to 5 times, some ending with a panic), single worker thread: both must go event by event as they go alone; non-trivial: at least one inner run that bred a generation",
            quick: 60_000,
            thorough: 2_400_000,
            strat: |_| nested_case(24),
            check: |c, obs| {
                let outer_alone = run_case(&c.outer);
                let inner_alone = run_case(&c.inner);
                let (outer, inner) = run_nested(c);
                let what = PLACES[c.place];
                for t in &inner {
                    same_trace(t, &inner_alone).map_err(|m| format!("a run inside the {what} of another one: {m}"))?;
                }
                same_trace(&outer, &outer_alone).map_err(|m| format!("a run with {} others inside its {what}: {m}", inner.len()))?;
                obs.nontrivial_if(!inner.is_empty() && inner_alone.snaps.len() > 1);
                if !inner.is_empty() {
                    obs.label(format!("inside {what}"));
                }
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "nested_parallel",
            rule: "as above on 2..8 worker threads, where a worker that waits for the inner run may take up other breedings of the outer one: every run ends, no generator is used twice at once, and populations, elites and counters of all runs are as guaranteed; non-trivial: an inner run that bred a generation",
            quick: 6_000,
            thorough: 240_000,
            strat: |_| (nested_case(24), 2usize..9, 0u8..3).prop_map(|(mut c, threads, delay)| {
                c.outer.threads = threads;
                c.inner.threads = threads;
                c.outer.cfg.delay = delay;
                c.inner.cfg.delay = delay;
                c.outer.cfg.panic_at = 0;
                c.inner.cfg.panic_at = 0;
                c
            }).boxed(),
            check: |c, obs| {
                let (outer, inner) = run_nested(c);
                for t in &inner {
                    sound(&c.inner, t, "inner run")?;
                }
                sound(&c.outer, &outer, "outer run")?;
                obs.nontrivial_if(inner.iter().any(|t| t.snaps.len() > 1));
                if !inner.is_empty() {
                    obs.label(format!("inside {}", PLACES[c.place]));
                }
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "side_by_side",
            rule: "two to four evolutions run at the same time on different threads, each with a single worker, some of them alike: each goes event by event as it goes alone; non-trivial: at least two of them breed a generation",
            quick: 6_000,
            thorough: 240_000,
            strat: |_| (vec(small(40, 10), 2..5), any::<u8>()).prop_map(|(mut v, k)| {
                if k % 3 == 0 {
                    v[1] = EvoCase { seed: v[1].seed, ..v[0].clone() };
                }
                v
            }).boxed(),
            check: |c, obs| {
                let alone: Vec<Trace> = c.iter().map(run_case).collect();
                let start = Barrier::new(c.len());
                let together: Vec<Vec<Trace>> = std::thread::scope(|s| {
                    let h: Vec<_> = c.iter().map(|c| s.spawn(|| {
                        start.wait();
                        (0..2).map(|_| run_case(c)).collect()
                    })).collect();
                    h.into_iter().map(|h| h.join().unwrap()).collect()
                });
                for (k, (a, t)) in alone.iter().zip(&together).enumerate() {
                    for t in t {
                        same_trace(t, a).map_err(|m| format!("run {k} of {} at the same time: {m}", c.len()))?;
                    }
                }
                obs.nontrivial_if(alone.iter().filter(|a| a.snaps.len() > 1).count() > 1);
                Ok(())
            },
        }),
        Box::new(Prop {
            name: "shared_operators",
            rule: "several threads select at the same time from one prepared mechanism, while others prepare and use mechanisms for another population, and apply the crossovers (other than edge recombination) and mutations to genomes of their own: each gets what it gets alone; non-trivial: at least three individuals and three genes",
            quick: 12_000,
            thorough: 480_000,
            strat: |_| (any_fitness(60), any::<u64>(), vec(any_strategy(), 1..4), any::<u64>(), 2usize..6, vec(perm_pair(40), 1..4), any_fitness(40))
                .prop_map(|(fit, age, strategies, seed, threads, genomes, other)| Shared2 { fit, age, strategies, seed, threads, genomes, other })
                .boxed(),
            check: |c, obs| {
                let p = aged(mocks(&c.fit), c.age);
                let q = aged(mocks(&c.other), c.age >> 7);
                let make = |p: &Population<Mock>| -> Vec<Box<dyn SelectionMechanism<Mock, TRng>>> {
                    c.strategies.iter().map(|s| {
                        let mut m = s.strategy().create_selector();
                        m.prepare(p);
                        m
                    }).collect()
                };
                let shared = make(&p);
                // What thread k does, given the shared mechanisms.
                let work = |k: usize, shared: &[Box<dyn SelectionMechanism<Mock, TRng>>]| {
                    let seed = mix(c.seed ^ k as u64);
                    let mut out = vec![];
                    let own = (k % 2 == 1).then(|| make(&q));
                    for (i, m) in shared.iter().enumerate() {
                        out.push(picks(&**m, &p, seed));
                        if let Some(own) = &own {
                            out.push(picks(&*own[i], &q, seed));
                        }
                    }
                    let pair = &c.genomes[k % c.genomes.len()];
                    (out, operators(pair, seed))
                };
                let alone: Vec<_> = (0..c.threads).map(|k| work(k, &make(&p))).collect();
                let start = Barrier::new(c.threads);
                let together: Vec<_> = std::thread::scope(|s| {
                    let h: Vec<_> = (0..c.threads).map(|k| {
                        let (start, shared, work) = (&start, &shared, &work);
                        s.spawn(move || {
                            start.wait();
                            work(k, shared)
                        })
                    }).collect();
                    h.into_iter().map(|h| h.join().unwrap()).collect()
                });
                for (k, (a, t)) in alone.iter().zip(&together).enumerate() {
                    ensure!(a.0 == t.0, "thread {k} of {} selected {:?} instead of {:?}", c.threads, t.0, a.0);
                    ensure!(a.1 == t.1, "thread {k} of {} made {:?} instead of {:?}", c.threads, t.1, a.1);
                }
                obs.nontrivial_if(p.len() >= 3 && c.genomes.iter().any(|g| g.p1.len() >= 3));
                Ok(())
            },
        }),
    ]
}
