#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = "property-based testing: generated whole runs of the real library on an instrumented model, history checked against "
T = {
"C01": (HIST + "elite invariants; direct select_elites calls", "random-run exploration; elites compared for every consecutive pair of populations"),
"C02": (HIST + "the best individual ever shown", "random-run exploration over algorithms, survival rules, landscapes"),
"C03": (HIST + "population invariants (order, uniqueness, validity, statistics)", "random-run exploration; populations seen by the progress closure and returned"),
"C04": (HIST + "a reference run loop (counters, stop, phases)", "random-run exploration; elapsed times only checked for consistency"),
"C05": (HIST + "the exact refill count; exhaustive small sizes", "exhaustive for small population and elite sizes, generated beyond"),
"C06": ("property-based testing: default breeding driven with logging models and selectors, against a reference breeding step", "generated breeding steps and whole runs; every call into the model is compared"),
"C07": ("statistical property-based testing: crossover/mutation frequencies against exact binomial bounds", "frequencies of fixed-size samples against a Chernoff bound (per comparison e^-36), plus exact cases 0 and 1"),
"C08": (HIST + "a reference model of the adaptive rates", "rates recomputed from the recorded populations within a stated rounding tolerance"),
"C09": ("property-based testing with scripted extreme generators: membership and distinctness of selected individuals", "generated populations and scripted extreme random words; not exhaustive over generator outputs"),
"C10": ("statistical property-based testing: rank frequencies against the closed-form laws (Chernoff/KL bound)", "detects deviations larger than the sampling resolution stated in DESIGN.md"),
"C11": ("statistical property-based testing: frequencies against proportional and Boltzmann laws (Chernoff/KL bound)", "detects deviations larger than the sampling resolution stated in DESIGN.md"),
"C12": ("property-based testing and small-space enumeration: permutation closure of all crossovers", "exhaustive for small genomes, generated up to hundreds of genes; bounded work per call counted through gene comparisons"),
"C13": ("differential property-based testing against independent PMX, OX, CX, SPX implementations", "exhaustive for small genomes, generated beyond"),
"C14": ("property-based testing with step-wise validity predicates for GPX2, SCX, ERX", "exhaustive for small genomes, generated beyond; choices the documentation leaves open are all accepted"),
"C15": ("differential property-based testing against the set definitions of common neighbours and partitions", "exhaustive for small genomes, generated beyond"),
"C16": ("property-based testing: exact shape of each edit, and statistical check of its randomness", "shape on generated genomes; uniformity by Chernoff/KL bound"),
"C17": ("property-based testing: bounds on every draw, statistical uniformity", "bounds on generated lengths and scripted extremes; uniformity by Chernoff/KL bound"),
"C18": ("differential property-based testing against double-double arithmetic", "generated sample sequences within magnitudes that do not overflow a square"),
"C19": ("model-based property testing: populations built in every way against a sorted-set model", "generated histories, small and large, several thread counts"),
"C20": (HIST + "the documented construction of initial populations", "random-run exploration, copies checked for independence"),
"C21": ("property-based testing of parameter validation against the documented ranges", "boundary-rich generated parameters; each case also checks that nothing ran before the rejection"),
"C22": (HIST + "the log of every model hook and custom component call", "random-run exploration with logging components"),
"C23": (HIST + "metamorphic relation: reused instance equals fresh instance", "runs made deterministic through a scripted model; histories compared exactly"),
"C24": ("metamorphic property-based testing: same seed, same result, no other randomness", "generated operators, selectors, breeding steps and whole runs"),
"C25": ("property-based testing of interpolation: end points, bounds, monotonicity", "boundary-rich generated floating-point inputs"),
"C26": ("differential property-based testing of OneMax against a bit-vector model", "generated and small exhaustive genomes, whole runs"),
"C27": ("property-based testing of ordering laws and lossless unwrapping", "generated fitness values including infinities, zeros and subnormals"),
"C29": ("statistical property-based testing: frequencies of whole offspring against the law computed from reference crossovers (Chernoff/KL bound)", "detects deviations larger than the sampling resolution; exact outcome laws for small genomes, start / split / first-partition laws for longer ones"),
"C30": (HIST + "identity and progress of the random generators", "real threads; every random number that breeding draws is a tag that must be new"),
"C31": ("metamorphic property-based testing: generated runs nested in or beside each other against the same runs alone", "event-by-event comparison on single workers; invariants on several workers, whose schedules are sampled"),
"C32": ("model-based property testing: generated runs and operation sequences with individuals that register their creation and release", "counts of existing individuals compared with a bound in runs and exactly in operation sequences; bytes are not counted"),
"C33": ("model-based property testing: the recorded calls that a user-defined algorithm, model or selection mechanism receives against a reference loop", "whole call histories with arguments, generated behaviour of the replaced operations"),
"C28": ("property-based testing over thread counts and schedules: history invariants, panic propagation, thread-count invariance", "real threads; schedules are sampled with injected delays, not enumerated"),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = [{
    "property": p["id"],
    "quick_cmd": f"VERIF_TIER=quick ./check.sh {p['id']}",
    "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
    "technique": T[p["id"]][0],
    "level": "exploration",
    "level_note": T[p["id"]][1] + ". Trusts the oracle in /verif/harness and that the sampled cases represent the rest.",
} for p in props]
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: every property is observed through the public interface. known_findings.txt lists the repaired defects.",
}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
