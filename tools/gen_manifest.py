#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("runtime monitor: 14 entry points against an independent RFC 8259 recogniser under exhaustive-small, boundary-size, mutated and random payloads", "exploration",
         "Judges every executed payload exactly; payload space beyond the enumerated bounds is sampled."),
 "C02": ("runtime monitor: depth verdict of every route against a reference depth counter; hostile nesting on a 1 MiB stack", "exploration",
         "All bracket shapes up to a bound and exact chains around every limit; larger payloads are sampled."),
 "C03": ("runtime monitor: every configuration against the reference grammar, plus builder state checks", "exploration",
         "All 12 settings combinations on enumerated comma/token sequences; larger payloads are sampled."),
 "C04": ("runtime monitor: differential comparison of 21 entry points with each other", "exploration",
         "Agreement is judged on every executed (payload, configuration); the space beyond the bounds is sampled."),
 "C05": ("runtime monitor: node-by-node walk of parsed values against the reference parse; accessor monitor", "exploration",
         "Judged exactly per executed payload; payloads are sampled beyond the bounds."),
 "C06": ("runtime monitor: decoded text of every string view against an independent decoder, over all escapes and surrogate pairs", "exploration",
         "All single escapes, all 2^20 surrogate pairs and short sequences of character classes are covered; longer strings are sampled."),
 "C07": ("runtime monitor: every encoding route checked for validity and denoted text, over all scalars", "exploration",
         "Every Unicode scalar alone and embedded, and short class sequences; longer strings are sampled."),
 "C08": ("runtime monitor: equality, order and recorded hasher streams over representation pairs against text comparison", "exploration",
         "Pairs are enumerated over small texts and all representations; larger ones are sampled."),
 "C09": ("runtime monitor: compact output against the reference token rendering", "exploration",
         "Judged exactly per executed payload; payloads are sampled beyond the bounds."),
 "C10": ("runtime monitor: random build/edit histories mirrored in a model, output re-read by the independent parser", "exploration",
         "Histories are sampled."),
 "C11": ("runtime monitor: pretty output against the reference layout; all output routes compared byte for byte", "exploration",
         "Judged exactly per executed payload and layout; both are sampled beyond the bounds."),
 "C12": ("fault injection: failing fmt::Write at every call and every byte budget, trace monitor on the writes", "fault_enumeration",
         "Every failure point of every executed output is enumerated (sampled for large outputs); payloads are sampled."),
 "C13": ("runtime monitor: integer conversions against big-number arithmetic, float results checked exactly against rounding intervals", "exploration",
         "Each executed conversion is judged exactly; sources are enumerated at type boundaries and midpoints, else sampled."),
 "C14": ("runtime monitor: cursor positions, subtrees and skips against the reference parse at every position", "exploration",
         "Every (position, operation) of each executed payload; operation mixes and payloads are sampled."),
 "C15": ("fault injection: bounded and failing node storage at every push, trace monitor on the pushes", "fault_enumeration",
         "Every refusal point of each executed payload (sampled for large ones) with every error kind; payloads are sampled."),
 "C16": ("fault injection: recording delegate failing at every event, trace compared with the reference event sequence", "fault_enumeration",
         "Every event of each executed payload (sampled beyond 120 events); payloads are sampled."),
 "C17": ("runtime monitor: token traces with and without interleaved peeks against an independent lexer", "exploration",
         "Inputs enumerated over small token and byte sequences, else sampled; peek interleavings sampled."),
 "C18": ("runtime monitor: kind and offset of every rejection against the reference first violation", "exploration",
         "Judged per executed payload; every single-byte edit and truncation of small documents is enumerated, the rest sampled."),
 "C19": ("runtime monitor: crash/hang watchdog over all public operations on hostile inputs (overflow checks on)", "exploration",
         "No panic, abort or hang on anything executed; inputs are sampled beyond the enumerated bounds."),
 "C20": ("runtime monitor: counting allocator and pointer-identity checks", "exploration",
         "Allocation counts and slice positions judged on every executed payload; payloads are sampled."),
 "C21": ("runtime monitor: lookup/edit histories against a model with pointer identity", "exploration",
         "Histories are sampled; each step is judged exactly."),
 "C22": ("differential traces of one probe across feature sets, debug/release, 32-bit and big-endian executions (native and Miri)", "exploration",
         "All listed configurations run the same fixed workload; other configurations and inputs are not covered."),
 "C23": ("ThreadSanitizer and concurrent stress with a purity monitor (results repeated across histories, buffers and threads)", "exploration",
         "Schedules and histories are sampled."),
 "C24": ("runtime monitor: instruction counts (callgrind) per input size, judged by growth ratio", "exploration",
         "Growth is judged over the measured sizes of the listed payload families and operations."),
 "C25": ("runtime monitor: every view and comparison of AnyStr against the str it was made from", "exploration",
         "Enumerated over small texts and edge characters, else sampled."),
 "C26": ("runtime monitor: iterator contract at every position of every string view", "exploration",
         "Every position of each executed string; strings enumerated over character classes, else sampled."),
 "C27": ("AddressSanitizer and Miri over all entry points, with monitors on every str and char handed out", "exploration",
         "Executed inputs only; Miri on small inputs, ASan on larger ones."),
 "C28": ("runtime monitor: displayed text, parts and equality of every error from every entry point against a table of the documented kinds", "exploration",
         "Every kind and byte is covered; payloads and offsets are sampled beyond the bounds."),
}
CLAIMED = os.environ.get("CLAIMED", "").split() or json.load(open(os.path.join(HERE, "tools", "claimed.json")))
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
for p in sorted(T):
    t, l, n = T[p]
    if p in CLAIMED:
        m["checks"].append({"property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {p}",
                            "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": "monitor not built yet"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
