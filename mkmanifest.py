#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": ("proptest against closed-form curves (both precisions), round trip, monotonicity", "Values of both signs up to 1e6, concentrated around the segment joins; where the published segments disagree at the join either is admitted."),
 "C02": ("proptest over primaries/white, differential against an independent derivation", "Triangles of bounded conditioning; tolerances scale with the condition number."),
 "C03": ("exhaustive enumeration of the spaces x proptest colours against published constants", "Published constants are in the harness, not read from the crate."),
 "C04": ("proptest differential against a step-by-step f64 model, metamorphic slice/scalar relation", "Colours up to 1e4, slice lengths up to a million."),
 "C05": ("proptest differential against published cone matrices, group laws", "Whites with cone responses away from zero."),
 "C06": ("proptest differential and round trip", "Sum and y away from zero."),
 "C07": ("proptest differential against CIE 1976, round trip both ways", "Either formula admitted within rounding of the join."),
 "C08": ("proptest differential against an independent CIEDE2000, metric laws", "At the discontinuities of the formula (hue difference 180 degrees) any admissible branch value is accepted."),
 "C09": ("exhaustive enumeration of all codes, proptest floats of any bit pattern", "Values within rounding of a half code may go either way."),
 "C10": ("proptest against reference linear algebra, exhaustive small-integer matrices", "Inverse required for condition numbers up to the precision's limit."),
 "C11": ("proptest differential against scalar operations, exhaustive cast lengths and indices", "Two ulps per operation."),
 "C12": ("stateful proptest: operation histories against a list model with invariants after every step", "Histories of up to 8 operations, spectra up to about 1500 samples."),
 "C13": ("proptest differential against an independent Sprague/linear form", "Spectra of up to 1200 samples."),
 "C14": ("proptest differential of each resampling operation against the list model", "Shapes whose step count is ambiguous to rounding are not decided."),
 "C15": ("proptest differential against a reference E308/E2022 integration, metamorphic laws", "Observer table trusted here, decided by C23."),
 "C16": ("exhaustive enumeration of intervals x degrees, proptest linspace", "Intervals up to 200 (quick) or 1000 nm, up to eight points."),
 "C17": ("proptest differential between code paths, the general spectrum type and reference weights, in builds without and with AVX", "Needs an AVX2 CPU for the AVX half; without it only the scalar half runs and the evidence says so."),
 "C18": ("proptest differential of four SIMD widths against scalar conversion, exhaustive lengths", "Needs an AVX2 CPU."),
 "C19": ("proptest round trip through the spectrum with an independent matrix and integration, linearity", "D65, observer and basis tables decided by C23."),
 "C20": ("proptest over any bit pattern, every integer kelvin, against the CIE formula", "Order decided for temperatures far enough apart to differ after rounding."),
 "C21": ("proptest differential against the mean formula, linearity, irrelevance of x and z", "Uniform sampling."),
 "C22": ("proptest calls with hostile arguments under AddressSanitizer, minimised by re-execution in child processes", "What AddressSanitizer can see; the AVX build is the one sanitised."),
 "C23": ("exhaustive enumeration of every table row against a snapshot plus cross-table relations", "The snapshot is that of the pinned commit; the relations tie it to published constants."),
 "C24": ("stateful proptest: call histories replayed in other orders, threads and fresh processes, bit comparison", "Schedules are those of the operating system."),
 "C25": ("proptest print-and-parse round trip over values of any bit pattern", "Which words surround the numbers is not decided."),
 "C26": ("proptest differential of whole pipelines against composed reference steps with propagated error intervals", "Whites with cone responses away from zero; pixels for which a reference step is undefined (power of a negative) are not followed further."),
}
checks = [{
    "property": k,
    "quick_cmd": f"./check.sh {k}",
    "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {k}",
    "technique": t,
    "level": "exploration",
    "level_note": "Generated-input search (deterministic in VERIF_SEED), not a proof. " + n,
} for k, (t, n) in T.items()]
m = {
    "version": 1,
    "setup_cmd": "./check.sh setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "All checks use the public API of /repo's crate; no hooks were needed. Defects found and repaired are in known_findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
