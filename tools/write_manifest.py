#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "It trusts the reference data (Unicode 16.0.0, built from sources other than the repository) and the reference implementation of UAX #15 in harness/core/src/refimpl.rs, both cross-checked; see DESIGN.md."
T = {
    "C01": ("differential property-based testing against a reference UAX #15 implementation, enumerated families and structured random text", "Every scalar value in 8 contexts, every character of interest in 480, all pairs of non-starters, all Hangul, mark runs to 100000 and millions of random texts give exactly the reference decomposition. Texts outside these families are sampled, not covered. " + REF),
    "C02": ("differential property-based testing against a reference UAX #15 implementation, enumerated families and structured random text", "As C01 for composition, and every first x every second x an intervening mark of every class. Other texts are sampled. " + REF),
    "C03": ("metamorphic property-based testing: idempotence, composition of forms, random equivalence-preserving rewrites", "The algebra is checked on the library alone; deciding equivalence is checked in both directions against the reference on random rewrites and near misses. Sampled beyond the enumerated families. " + REF),
    "C04": ("metamorphic property-based testing: concatenation and splitting at boundaries", "Concatenations of random and enumerated pieces, all split points of the shorter texts. Sampled. " + REF),
    "C05": ("differential property-based testing against the reference detection algorithm; soundness against reference normalization", "Each answer compared with the reference three-valued answer, and Yes/No with the truth. Sampled beyond the enumerated families. " + REF),
    "C06": ("differential property-based testing: predicate against reference normalization", "Random and enumerated texts, about half of them in or next to one of the forms. Sampled beyond the enumerated families. " + REF),
    "C07": ("differential property-based testing against the definition, over texts with runs of 26 to 130 non-starters", "Predicate compared with the definition (normalized, and no run over 30 in the NFKD). Sampled beyond the enumerated families. " + REF),
    "C08": ("differential property-based testing against a reference UAX15-D4 process, plus invariants", "Output compared with a direct reference of the process. Sampled beyond the enumerated families. " + REF),
    "C09": ("metamorphic property-based testing of chained adapters", "Every chain of stream_safe with each form on enumerated and random texts. Sampled. " + REF),
    "C10": ("exhaustive enumeration of the input domain against reference data", "All 1 112 064 scalar values, plus random sequences of lookups. " + REF),
    "C11": ("exhaustive enumeration of the input domain against reference data", "All 1 112 064 scalar values, both functions. " + REF),
    "C12": ("enumeration and random search of pairs against reference data", "The quick tier enumerates every pair of characters of the basic plane and, beyond it, firsts and seconds with their neighbours and aliases, and samples the rest; the thorough tier enumerates all 1.2 * 10^12 pairs. " + REF),
    "C13": ("exhaustive enumeration of the input domain against reference data", "All 1 112 064 scalar values. " + REF),
    "C14": ("exhaustive enumeration of the input domain against reference data", "All 1 112 064 scalar values in every function. " + REF),
    "C15": ("exhaustive enumeration per character, property-based testing of texts", "All scalar values and every mapped ideograph next to every kind of neighbour; longer texts sampled. " + REF),
    "C16": ("stateful model-based property testing of the adapters against a list model", "Random operation sequences with cloning over instrumented sources, fused and not; sampled histories. " + REF),
    "C17": ("stateful property testing with fault injection into the writer", "Formatting at random points of consumption, writer failing at every position of short outputs; sampled histories. " + REF),
    "C18": ("differential property-based testing between entry points and source types", "All entry points on enumerated characters and random texts over eight kinds of source. Sampled. " + REF),
    "C19": ("stateful property testing with an instrumented source and a reference demand model", "The number of polls at each output is compared with the largest the property allows, over finite and endless sources. Sampled. " + REF),
    "C20": ("property-based testing with a counting allocator and compiled-in counters of executed code edges and bytes moved", "Patterned texts up to 200 000 characters within fixed bounds (512 bytes per character of the longest run; 400 n (log2 n + 1) steps): a change of growth shows, a constant factor within the margin does not. Sampled."),
    "C21": ("property-based robustness testing with debug assertions, overflow and unsafe-precondition checks, AddressSanitizer and Miri as monitors, and injected panics", "No panic, abort, invalid character or reported misuse of memory on enumerated and random inputs, and after a panic injected at each position of a source, callback or writer. The long families run optimised with run-time checks and under AddressSanitizer, the runs of marks also unoptimised (stack), short texts in Miri. Undefined behaviour that these do not observe is not detected. Sampled."),
    "C22": ("differential property-based testing between builds of the library: std/no_std, debug/release, 32-bit, big-endian", "Digests of every public function's answers compared between std/no_std x debug/release on the same cases; the answers of a 32-bit build without std compared case by case on all stages at lower counts, those of a big-endian one (in Miri) on a few hundred short texts. Sampled."),
    "C23": ("metamorphic property-based testing: the same call after other histories, interleaved with other adapters, on other threads, and as the first call of a fresh process; ThreadSanitizer as a monitor; random schedules and memory orders in Miri", "Random interleavings on one thread are controlled; across threads the schedule is the system's, except for short cases in Miri, whose schedules and weak-memory choices are drawn from seeds (96 in the quick tier). A race that needs a rare schedule of longer work may be missed unless ThreadSanitizer sees it. " + REF),
    "C24": ("property-based testing of the generator script over random databases: generate, compile, compare with the database", "The committed tables, the tables generated from a reconstruction of the 16.0.0 database, and those generated from random databases that extend it within the stability rules are compiled into the library and every code point is compared. Databases are sampled. " + REF),
}
checks = []
na = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    tech, note = T[p]
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p}", "evidence_file": f"evidence/{p}.json", "technique": tech, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na, "notes": "No hooks: every check goes through the public API. A check builds what it needs from /repo's working tree into /verif/build, so setup_cmd only warms that up."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
