#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

A, GA, AGA, EV, MO, PO, OP, CR, MU, SE, ST, IN, LI = ("src/algorithms.rs", "src/algorithms/ga.rs",
    "src/algorithms/aga.rs", "src/evolution.rs", "src/model.rs", "src/population.rs", "src/operators.rs",
    "src/operators/crossover.rs", "src/operators/mutation.rs", "src/operators/selection.rs", "src/stats.rs",
    "src/individual.rs", "src/lib.rs")
NOTEST = "No existing test observes more than one hand-picked OneMax run started from entropy, and those only look at the final solution."

p("C01", "Elites survive every generation, so the best fitness never regresses",
  "In every generation of the standard and the adaptive genetic algorithm, the floor(population size x elitism rate) fittest individuals of the current population (all of it, if it has become smaller than that) are present, unchanged, in the next population, and nothing else bypasses breeding. Hence whenever that number is at least one the best fitness of the population never decreases from one generation to the next. A user-defined algorithm that keeps the default elitism always carries its fittest individual over.",
  ["histories", "configurations", "inputs"],
  "all runs: any population size, elitism rate, selection strategy, rates, initial population (also larger or smaller than the population size), fitness landscape (ties, negatives), and number of worker threads",
  NOTEST + " A dropped, mutated or wrongly chosen elite still lets OneMax converge.",
  [GA, AGA, A, EV], [("elite count from the elitism rate", GA+" configure, "+AGA+" configure"), ("select_elites takes the tail of the sorted population", GA+", "+AGA), ("default select_elites", A), ("evolve loop puts elites first in the new population", EV)],
  [("elite_size", "number of elites", GA)], ["population handed to the progress closure in consecutive generations"])

p("C02", "A run returns the best individual found during its execution",
  "The individual returned by a run from a random population or from a single individual has a fitness equal to the maximum fitness of any individual in any population the run went through (the initial one and every later one), and it equals one of those individuals. This holds with or without elitism.",
  ["histories", "configurations"],
  "all runs: every algorithm, elitism rate including zero, survival rule, fitness landscape, stopping generation, thread count",
  NOTEST + " With the default elitism of a population of 100 the final population happens to contain the best individual.",
  [EV, PO], [("run / evolve_individual", EV), ("take_fittest", PO)], None, ["value returned by run and evolve_individual versus populations seen by the progress closure"])

p("C03", "Every population of a run is well-formed",
  "Every population that an evolution shows or returns is non-empty, sorted by ascending fitness, free of duplicate individuals, and made only of valid individuals whose recorded fitness is the one the model's evaluation assigns to their genome. Its reported statistics describe exactly the fitness values it holds, its fittest individual has the maximum fitness, and after the initial generation it never exceeds the configured population size.",
  ["histories", "configurations", "schedules"],
  "all runs: any algorithm, parameters, model that sometimes produces invalid individuals (NaN, infinite, or flagged by a custom rule), fitness landscape with arbitrary ties, thread count",
  NOTEST + " No test looks inside an intermediate population, and duplicates need equal-fitness ties between different genomes.",
  [PO, A, MO, EV], [("sort, dedup, collect stats", PO+" sort_dedup_and_collect_stats"), ("validity filter of the initial population", A+" initialize_population"), ("validity of offspring", MO+" breed")],
  [("individuals", "the sorted unique individuals", PO), ("stats", "fitness statistics", PO)], ["progress closure argument", "population returned by evolve_population"])

p("C04", "The run loop: one progress call per generation, exact stop and counters",
  "A run calls the progress closure once per generation with generation numbers 0, 1, 2, ... without gaps, breeds exactly one new generation after each call that returns true, and stops without any further breeding or evaluation at the first call that returns false. The stagnation counter is 0 at the start, returns to 0 whenever the best fitness exceeds that of the previous generation and otherwise grows by one. A population run returns exactly the population last shown to the closure.",
  ["histories", "configurations"],
  "all runs and all stopping points (including stopping immediately), every algorithm and entry point",
  NOTEST + " The doc tests stop on a fitness threshold and never check counters, call counts or the returned population.",
  [EV, PO], [("while progress(&population)", EV+" evolve_population"), ("generation and stagnation counters", PO+" replace")],
  [("generation", "generation counter", PO), ("stagnation", "generations since the last improvement", PO)], ["progress closure calls", "evaluation calls of the model"])

p("C05", "Every generation is refilled to the full population size",
  "For every population size of at least one and every elitism rate, each generation breeds exactly (population size minus number of elites carried over) offspring, and every one of those offspring, also when only a single one is needed, is a member of the next population unless it duplicates another member. If breeding only produces distinct individuals, every population after the initial one therefore has exactly the configured size, and no run aborts for lack of individuals. The same holds for a user-defined algorithm that relies on the default reproduction with its own target size.",
  ["configurations", "histories", "schedules"],
  "all population sizes from 1, elitism rates in [0,1), initial population sizes, per-generation target sizes of custom algorithms, thread counts",
  NOTEST + " Both doc tests use 100 individuals with one elite, so sizes for which zero or one offspring is needed never occur.",
  [A, EV, GA, AGA], [("generate_new_population", A), ("reproduction_parameters", GA+", "+AGA)], None, ["offspring returned by breeding", "next population"])

p("C06", "Keep-best breeding from selected parents",
  "Breeding an offspring crosses over at most one pair of parents, both of them different members of the current population returned by the selector, or else copies one selected parent; it then optionally mutates the result, applies the local search once and evaluates once, in that order, without changing the parents. It returns that evaluated offspring exactly when it is valid and passes the survival rule, by default being at least as fit as its fitter parent; otherwise it returns the fitter parent. The bred individual is therefore always valid and, by default, never less fit than any of its parents.",
  ["inputs", "programs", "configurations"],
  "all populations, selectors, rates, generator states, models (crossover, mutation, local search, evaluation that may yield invalid individuals, overridden survival rule)",
  "No existing test calls breeding directly; whole-run doc tests cannot tell which parent was returned or whether an invalid offspring slipped through.",
  [MO, SE], [("breed", MO), ("can_survive", MO), ("select_distinct", SE)], None, ["calls received by the model's operators", "value returned by breed"])

p("C07", "Crossover and mutation happen at exactly the configured rates",
  "When the selector offers different parents, the fraction of bred offspring produced by crossover equals the crossover rate and, independently, the fraction mutated equals the mutation rate: a rate of 0 never applies the operator and a rate of 1 always does. A population with a single individual never crosses over. In a run of the standard algorithm the configured rates stay in force unchanged in all generations.",
  ["inputs", "configurations", "histories"],
  "all rates in [0,1], populations and generator seeds",
  "A sample of one run cannot estimate a probability, and no test counts operator applications.",
  [MO, GA], [("rate comparisons in breed", MO), ("configure copies the rates", GA)], None, ["operator calls counted by the model", "reproduction parameters visible to the pre-generation hook"])

p("C08", "Adaptive rates follow diversity and stay inside their ranges",
  "In the adaptive algorithm the first generation breeds with the highest crossover and lowest mutation rate; at each later generation whose number is a multiple of the non-zero adjustment interval the crossover rate becomes the linear interpolation of its range by the diversity and the mutation rate the interpolation of its range by one minus the diversity, and at all other generations both are left as they were. Diversity is the ratio of the population's current to its initial fitness standard deviation limited to [0,1]; for an initial population without any spread it is 0 while there is still no spread and 1 otherwise. Both rates are always real numbers within their configured ranges.",
  ["histories", "configurations", "inputs"],
  "all sequences of populations (any spread, also zero and growing), rate ranges, adjustment intervals including 0, and repeated runs of one instance",
  "The only adaptive doc test looks at the final solution; populations without initial spread, intervals other than 1 and repeated runs are never exercised.",
  [AGA, LI], [("prepare_for_next_population", AGA), ("interpolate_f64", LI)], [("reference_std", "spread of the initial population", AGA)], ["reproduction parameters visible to the pre-generation hook"])

p("C09", "Selection always returns a genuine member, for every strategy and population",
  "Every selection strategy, once prepared for a population, returns without panicking an in-range index together with the individual stored at that index, for every non-empty population with finite fitness values (including zero, negative, tied, huge) and every generator output. Distinct selection returns a member different from the excluded individual, namely the first different candidate among at most the allowed number of attempts, or nothing when there is none.",
  ["inputs", "configurations", "histories"],
  "all populations of size at least one, strategy parameters, generator outputs (including extreme ones), and sequences of populations prepared one after another",
  "The unit tests use one population of ten evenly spaced fitness values and one seed; extreme draws and degenerate populations are never sampled.",
  [SE], [("select of each mechanism", SE), ("select_distinct", SE)], None, ["index and reference returned"])

p("C10", "Rank-based selection follows its documented distribution",
  "With r = 1..n the rank of an individual in ascending fitness order: tournament selection of size k picks rank r with probability (r/n)^k - ((r-1)/n)^k; rank selection with probability proportional to r; elitist selection with ratio q picks uniformly among the individuals left after dropping the floor(n*q) least fit; and linear selection with bias b in [1,2] picks by a density that falls linearly from b (fittest) to 2-b (least fit), so that bias 1 is uniform and a higher bias means more pressure. Only the order of the fitness values matters.",
  ["inputs", "configurations"],
  "all population sizes, fitness values, tournament sizes, biases, ratios",
  "The unit tests fix one population of ten, one parameter value per strategy, a 1% absolute tolerance and, for linear selection, only a monotone trend.",
  [SE], [("TournamentSelection, RankSelection, LinearSelection, ElitistSelection", SE)], None, ["frequency of returned indices"])

p("C11", "Roulette and Boltzmann selection are proportional to (scaled) fitness",
  "For non-negative fitness values that are not all zero, roulette-wheel selection picks each individual with probability fitness divided by total fitness. Boltzmann selection picks each individual with probability proportional to exp(fitness / temperature), where each prepared population multiplies the temperature by the cooling rate once; it stays so for arbitrarily low positive temperatures and arbitrarily large or negative fitness values, converging to always choosing the fittest. Only the most recently prepared population influences the probabilities.",
  ["inputs", "histories", "configurations"],
  "all fitness vectors, temperatures, cooling rates, and sequences of prepared populations",
  "The unit tests fix ten fitness values below one at temperature 5 with no cooling, where the exponential can neither overflow nor underflow.",
  [SE], [("RouletteWheelSelection", SE), ("BoltzmannSelection prepare / select", SE)], [("temperature", "current temperature", SE)], ["frequency of returned indices", "temperature getter"])

p("C12", "Permutation crossovers always produce a permutation of the parents' genes",
  "For any two parents that are permutations of the same genes, of any length including 0, 1 and 2, each permutation-based crossover (GPX2, SCX, ERX, PMX, OX, CX), called directly with any pivot, range (also empty) or partition choice or through its strategy with any random generator, terminates with an offspring of the same length containing every gene exactly once. Crossing a parent with an identical copy reproduces the same tour (identical up to rotation and direction; for PMX, OX and CX the identical genome). Parents of different lengths are rejected with a panic by every crossover.",
  ["inputs", "configurations"],
  "all lengths, pairs of permutations, gene types and labels, pivots, ranges, partition selectors, generator states",
  "Each crossover has a single doc example on ten genes.",
  [CR, OP], [("the crossover functions and CrossoverStrategy::crossover", CR)], None, ["returned genome"])

p("C13", "Position-based crossovers inherit genes as specified (PMX, OX, CX, SPX)",
  "PMX keeps the first parent's genes in the given range and fills every other position with the second parent's gene, followed through the range's gene mapping until it no longer clashes. OX keeps the first parent's genes in the range and fills the other positions, starting after the range and wrapping around, with the remaining genes in the cyclic order in which the second parent lists them from the same point. CX gives every position the gene of one parent at that position, taking whole position cycles alternately from the first and second parent in order of their first position; SPX takes the genes before the point from the first parent and from the point on from the second.",
  ["inputs"],
  "all lengths, parent pairs (for SPX arbitrary genomes, also with repeated genes), ranges and points (also at and beyond the ends)",
  "One doc example each; other cycle structures, mapping chains, ranges touching the ends are untested.",
  [CR], [("partially_mapped_crossover, order_crossover, cycle_crossover, single_point_crossover", CR)], None, ["returned genome"])

p("C14", "Adjacency-based crossovers inherit neighbours as specified (GPX2, SCX, ERX)",
  "SCX and ERX start with the pivot. SCX continues with a not yet used cyclic successor of the current gene in one of the parents whenever one exists, and when both parents offer a different unused one it takes the first parent's candidate if that candidate's position in the second parent is before the other candidate's position in the first parent, and the second parent's candidate if it is after; ERX continues with an unused cyclic neighbour of the current gene in either parent having the fewest unused neighbours whenever one exists. GPX2 is the concatenation of the parents' common partitions in the order chosen by the selector, which is shown the last placed gene and exactly the partitions not yet used.",
  ["inputs"],
  "all lengths, parent pairs from unrelated to almost identical, pivots, partition selectors",
  "One doc example each; the ERX one only checks that a permutation results.",
  [CR, OP], [("sequential_constructive_crossover, edge_recombination_crossover, generalized_partition_2_crossover", CR)], None, ["returned genome", "selector arguments"])

p("C15", "Common neighbours and partitions are exactly those shared by both genomes",
  "The common neighbours of two genomes (each with distinct genes) are exactly the unordered pairs of genes that are cyclically adjacent in both, whatever the order of the two arguments and also for genomes of two genes or of different lengths and for gene types whose order is only partial. Their common partitions use every gene of the first genome exactly once, consecutive genes of a partition are common neighbours, and for two permutations of the same genes no shared run of neighbours is broken up except that the one containing the first genome's starting gene may be split once.",
  ["inputs"],
  "all pairs of genomes with distinct genes, of equal or different length and overlap, all label orders, gene types with a total, a partial and no order",
  "One doc example each with five genes.",
  [OP], [("common_neighbors, common_partitions", OP)], None, ["returned pairs and partitions"])

p("C16", "Mutations make exactly their documented edit, with the documented randomness",
  "Swap exchanges two different positions, inversion reverses one contiguous stretch of at least two genes, scramble permutes genes within one contiguous stretch of at least two, insertion moves one gene to another position shifting those in between, and duplicate overwrites one position with the gene of another; nothing else changes, so all but duplicate preserve the genes. Pairs of positions (ordered for duplicate; as end points for insertion) are uniformly distributed; inversion and scramble draw the stretch length uniformly from 2 to the genome length and then its start uniformly, and scramble orders it uniformly. Genomes with fewer than two genes are left alone, and the strategy form behaves like the direct form.",
  ["inputs"],
  "all genome lengths, gene types, repeated genes, generator states",
  "One seeded doc example each.",
  [MU, OP], [("the five mutation functions and MutationStrategy::mutate", MU)], None, ["mutated genome"])

p("C17", "Random pair and range helpers stay in bounds and are uniform",
  "A random pair consists of two different indices below n and every ordered pair is equally likely. A random range is a non-empty sub-range of 0..n, a bounded one has a length between the given minimum and maximum inclusive; lengths are equally likely, and so is every start position for a given length. Impossible requests (fewer than two for a pair, zero for a range, minimum above maximum) are rejected with a panic.",
  ["inputs"],
  "all n, bounds and generator states",
  "One seeded doc example each.",
  [OP], [("random_pair, random_range, bounded_random_range", OP)], None, ["returned indices and ranges"])

p("C18", "Statistics equal the exact statistics of the recorded samples",
  "After any sequence of finite samples, recorded one by one, collected from an iterator, or a mixture, the count, minimum, maximum and the index of the first sample attaining each are exact, and the mean, sample variance and standard deviation agree with an exact computation up to numerically stable rounding, also for a large common offset. An empty collection has no values and cannot become a populated summary; one sample has variance zero. Snapshots are not affected by later samples, index setters change only that index and reject an out-of-range one, and the printed form shows exactly these values with the requested precision.",
  ["inputs", "histories"],
  "all finite sample sequences whose squared deviations are representable, all interleavings of record, collect, snapshot, print",
  "Doc examples use five small integers.",
  [ST], [("record (Welford), FromIterator, snapshot, set_arg_min/max, Display", ST)], None, ["getters and printed text"])

p("C19", "A population is the sorted set of the individuals it was given",
  "A population built from, or replaced by, any non-empty collection of individuals with finite fitness contains exactly the distinct individuals of that collection in ascending fitness order: none is lost, invented or repeated, even if many different individuals share the same fitness. Replacing increments the generation by one, hands the previous individuals back, and resets the stagnation counter if and only if the best fitness rose, incrementing it otherwise. An empty collection is refused, conversion back yields the same individuals, and the fittest individual (by reference or taken) has the maximum fitness.",
  ["histories", "inputs"],
  "all sequences of replacements with all multisets of individuals, tie structures, sizes up to those sorted in parallel",
  "No existing test builds a population with ties or duplicates, or calls replace directly.",
  [PO], [("new, replace, sort_dedup_and_collect_stats, take_fittest", PO)], [("stats", "fitness statistics and arg max", PO)], ["population contents, counters"])

p("C20", "Initial populations are built as documented",
  "A random run starts from exactly the configured number of freshly generated random individuals made with the caller's arguments; a run from a single individual starts from that individual itself plus (size minus one) copies of it each mutated exactly once; a population run starts from the individuals given. Every initial individual is evaluated, the invalid ones are removed and the distinct valid ones form generation 0, and a run without any valid one panics instead of starting. Extending a list with generated individuals keeps what it already contains and appends exactly the requested number.",
  ["inputs", "configurations", "schedules"],
  "all sizes (including 0 for extension), arguments, validity patterns, thread counts",
  "No existing test uses a run from an individual or population, or any invalid individual.",
  [MO, A, EV], [("extend_population, extend_population_with", MO), ("initialize_population", A), ("run, evolve_individual", EV)], None, ["generation 0 population", "calls received by the model"])

p("C21", "Invalid parameters are rejected before evolving, valid ones accepted",
  "Starting a run panics before any progress call if the population size is 0, the elitism rate is not in [0,1), or any crossover or mutation rate (either end of a range in the adaptive algorithm) is not a number in [0,1]; every combination within these bounds is accepted. Tournament size 0, a cooling rate of 0 and an elitist ratio outside [0,1) are rejected when the selection mechanism is created or changed, and otherwise the mechanism reports exactly the parameters it was given. The documented default parameters are in force when nothing else is given.",
  ["configurations", "inputs"],
  "all parameter combinations including boundary values, NaN and infinities",
  "The doc tests use one or two valid parameter sets and no invalid one.",
  [GA, AGA, SE], [("validate, Default", GA+", "+AGA), ("constructor and setter assertions", SE)], None, ["panic or acceptance"])

p("C22", "Model hooks and custom components are called when and with what they should be",
  "In every generation the pre-generation hook is called exactly once, before any selection, with the population just shown to the progress closure; changes it makes to the rates and the selection mechanism are in force for the breeding of that generation. The selection mechanism then in force is prepared exactly once with that population before its first use, and every selection and survival decision of the generation is made against that same population. A user-defined algorithm that implements only the required operations gets evaluation and filtering of the initial population, default elitism, refilling and replacement.",
  ["programs", "histories", "schedules"],
  "all sequences of hook actions (rate changes, selector replacement), algorithms, parameters, thread counts",
  "No existing test implements a hook, a selection mechanism or an algorithm of its own.",
  [A, GA, AGA, EV, MO], [("prepare_for_next_population", GA+", "+AGA), ("evolve loop order", EV), ("default trait methods", A)], None, ["calls received by user-supplied model, selector, algorithm"])

p("C23", "An evolution instance can be reused without memory of earlier runs",
  "Running an evolution instance gives the same course of events as running a fresh instance with the same parameters, start and random generators, whatever runs (other parameters, sizes, selection strategies, adaptive state, stopped early, or rejected for invalid parameters) the instance has executed before.",
  ["histories", "configurations"],
  "all sequences of runs on one instance, for both algorithms",
  "No existing test runs an instance twice.",
  [EV, GA, AGA], [("configure", GA+", "+AGA), ("generation-0 reset of the adaptive state", AGA)], [("breeding, reference_std, elite_size", "per-run state kept in the algorithm", AGA)], ["populations and rates of the later run versus a fresh instance"])

p("C24", "With a seeded generator the operators are deterministic",
  "Given equal inputs and equal generator states, every selection mechanism, mutation, breeding step and crossover other than edge recombination returns the same result and leaves the generator in the same state. A whole run whose model supplies seeded generators, executed by a single worker thread, is reproducible. Renaming the genes by an order-preserving map renames the result of every such crossover and mutation and changes nothing else.",
  ["inputs", "configurations", "histories"],
  "all inputs and seeds",
  "Seeded doc examples cover one seed per operator; none compares repeated executions or relabelled genes.",
  [CR, MU, SE, MO, OP], [("all randomness drawn from the passed generator", CR+", "+MU+", "+SE+", "+MO)], None, ["results and generator state of repeated executions"])

p("C25", "Linear interpolation respects its end points, bounds and monotonicity",
  "For minimum not above maximum and a ratio in [0,1], interpolation yields the minimum at ratio 0, the maximum at ratio 1, the linear value in between up to rounding, never leaves [minimum, maximum] beyond rounding, and does not decrease when the ratio grows. The integer form yields that linear value rounded down (up to floating-point rounding).",
  ["inputs"],
  "all finite ranges representable without overflow (integers up to 2^52) and ratios in [0,1]",
  "One doc example each.",
  [LI], [("interpolate_f64, interpolate_usize", LI)], None, ["returned value"])

p("C26", "The OneMax model keeps lengths and evaluates exactly",
  "A random OneMax individual has the requested number of bits, each bit being equally likely 0 or 1 independently of all others; evaluation sets the fitness to the exact fraction of one bits, crossover combines a prefix of the first with the matching suffix of the second parent, split at a position that is equally likely to be any of them, and mutation copies one evenly chosen bit over another and so changes at most one. Generators that the model creates are seeded independently of each other. Every individual of every population of a OneMax run and the returned solution has the requested length and a fitness equal to its fraction of one bits.",
  ["inputs", "histories"],
  "all lengths from 1, genomes, seeds, both algorithms and all selection strategies",
  "The doc tests run one length and only check that the solution is all ones.",
  [LI], [("OneMax, OneMaxEvolutionModel", LI)], None, ["genome and fitness of individuals"])

p("C27", "Wrapped individuals are ordered by fitness and unwrap losslessly",
  "Wrapping individuals orders and equates them exactly by their fitness, so that sorting, maximum and a priority queue of wrapped individuals agree with their fitness order, consistently with the library's own fitness comparison. Reading, modifying through and unwrapping a wrapper gives access to precisely the original individual.",
  ["inputs"],
  "all collections of individuals with finite or infinite fitness values, including ties and signed zeros, and any rule of validity",
  "No existing test touches the wrapper.",
  [IN, OP], [("IndividualWrapper Ord/Eq/Deref/take", IN), ("compare_fitness", OP)], None, ["comparison results"])

p("C28", "Results are valid under every schedule and thread count",
  "Breeding, evaluation, initialisation and sorting run in parallel, and for every number of worker threads and every interleaving of their work each individual is evaluated exactly once per breeding, no offspring is lost or shared between workers, no two concurrently running breedings use the same random generator, and a worker's panic reaches the caller. The guarantees on elites, size, order and uniqueness of populations hold alike.",
  ["schedules", "configurations"],
  "thread pools of 1 to 16 workers, generated per-call delays and yields inside model operators, population sizes up to a few thousand",
  "The existing tests run with one default thread pool and trivially short operators.",
  [A, MO, EV, PO], [("par_extend / par_iter_mut / generator pool", A), ("extend_population", MO), ("par_sort_unstable_by", PO)], None, ["calls received by the model", "populations shown"])

p("C29", "Crossover strategies make their random choices evenly",
  "Crossing over through a strategy value makes every documented random choice without bias: sequential constructive and edge recombination crossover start at each gene equally often, single-point crossover splits at each of the positions 0 to n-1 equally often, partially mapped and order crossover use a range distributed like the library's random range, and generalized partition crossover takes each of the remaining common partitions equally often as the next one. Every possible offspring of such choices therefore occurs with the probability that follows from them.",
  ["inputs"],
  "all pairs of parent permutations (any two genomes of equal length for single-point) and generator states",
  "The unit tests cross over through a strategy a few times with one seed; a start, split or range that never occurs cannot be noticed from single outcomes.",
  [CR, OP], [("choice of pivot, split point, range and partition in CrossoverStrategy::crossover", CR), ("random_range", OP)], None, ["offspring of many calls of CrossoverStrategy::crossover"])

p("C30", "Random generators live for the whole run and never repeat a stream",
  "Within one run, breeding never uses more generators than there are worker threads, no generator is used by two breedings at the same time, and each generator carries on where it stopped from one offspring and one generation to the next. So no breeding is ever given random numbers that an earlier breeding of the same run consumed, even when the model creates all its generators from one fixed seed (on one worker thread), and also when a generation needs only a single offspring.",
  ["histories", "schedules", "configurations"],
  "all runs: population sizes, numbers of offspring per generation, algorithms, entry points, thread counts, generator constructors (seeded or not)",
  NOTEST + " The tests seed their models from entropy, for which a generator recreated in every generation looks the same.",
  [A, EV], [("generator pool created per run", EV+" evolve_population"), ("generators pulled from the pool per worker", A+" generate_new_population")], [("generator pool", "idle generators of the run", EV)], ["random numbers and generator identities seen by crossover and mutation"])

p("C31", "Evolutions that run side by side or inside each other stay independent",
  "Evolutions of different instances do not influence each other, whether one runs inside a model operation, hook, selector or progress closure of another, whether they run at the same time on different threads, or whether they end with a panic: given its own generators and a single worker thread, each goes through exactly the course of events it goes through alone. On several worker threads every nested run ends, no generator is used by two breedings at once, and all guarantees on populations, elites and counters hold for the inner and the outer run. Likewise selection mechanisms shared by threads, and crossovers (other than edge recombination) and mutations applied by several threads at the same time, give each thread what it gets alone.",
  ["histories", "schedules", "inputs"],
  "all pairs of runs (algorithms, parameters, starts, seeds), places and times of nesting, numbers of concurrent runs and threads",
  NOTEST + " None runs two evolutions at the same time or one within another.",
  [EV, A, MO, PO, SE], [("run loop without state outside the instance", EV+" evolve_population"), ("parallel breeding", A+" generate_new_population"), ("population state", PO)], None, ["calls received by the models of both runs", "populations shown", "selected indices", "offspring"])

p("C32", "Individuals are released exactly once and never pile up",
  "A run holds at most a few populations of individuals at any time: however many generations it goes through, and however often an instance is used again, the number of individuals that exist stays within a small multiple of the population size (plus a few per worker thread). Once the result and the instance are dropped no individual remains, also after a panic in a model operation, and each individual is released exactly once. Likewise exactly those individuals exist that are in the population or list which the caller holds after a population was created, replaced, turned into a list or reduced to its fittest, after a list was extended with random or derived individuals, and after individuals were wrapped and unwrapped.",
  ["histories", "configurations", "inputs"],
  "all runs of any length, repeated runs of one instance, sequences of population operations, with and without a panic in a model operation, comparison or copy",
  NOTEST + " They use small individuals for a few generations, for which piling up goes unnoticed.",
  [EV, PO, A, MO], [("run loop, best individual and swapped buffers", EV+" evolve_population, evolve_to_best"), ("replace, take_fittest, into a list", PO), ("initialize_population", A), ("extend_population_with", MO)], [("individuals that exist", "at most a few populations", "whole process")], ["creations and releases of individuals"])

p("C33", "Algorithms and models may replace the provided operations",
  "Every provided operation can be replaced by a user's type, and what the replacement does is honoured. An evolution drives a user-defined algorithm through its operations alone: it configures it with the caller's parameters and hands it, once, exactly the initial individuals (those the caller gave, or those which the model's own extension made of an empty list, asked once for the initial population size with the caller's arguments); it shows to the closure the very population that initialisation or the last replacement left, whatever its generation counter, size or claimed maximum; and in every round it calls, once each and in this order, preparation, elite selection into an empty list, generation on top of what elite selection left, and replacement with what generation left, and then nothing more after the closure has said no. A run returns the population shown last, or the fittest individual shown. The provided algorithms obtain offspring only through the model's breeding operation: one call per open place, with the current population and the rates in force, and exactly its results join the elites. The provided breeding obtains the second parent from the selection mechanism's own selection of a distinct individual, excluding the first, and leaves survival to the model's own rule.",
  ["programs", "histories", "configurations"],
  "all implementations of the algorithm, model and selection traits that replace any provided operation, all starts and repeated runs",
  "No existing test implements an algorithm, breeding, extension or selection of its own.",
  [EV, A, GA, AGA, MO, SE], [("evolve loop", EV), ("provided trait methods", A+", "+MO+", "+SE)], None, ["calls received by user-supplied algorithm, model and selection, with their arguments", "populations shown and returned"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
