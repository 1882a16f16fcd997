#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl; the list of built checks is below."""
import json
BUILT = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15".split()
T = {
 "C01": "deterministic simulation: seeded schedules of rayon workers under a baton scheduler, sequential vs parallel call in the same run",
 "C02": "deterministic simulation: seeded schedules and pool sizes, result compared with a build without rayon",
 "C03": "deterministic simulation: seeded schedules of concurrent callers, results compared with isolated executions",
 "C04": "deterministic simulation: seeded call histories with aborted calls, results compared with fresh-process executions",
 "C05": "deterministic simulation with injected entropy, clock, environment, heap and stack states; results compared with a neutral world",
 "C06": "deterministic simulation with injected entropy faults and schedules; seeded calls compared with isolated executions",
 "C07": "deterministic simulation with degenerate and faulty entropy streams; answers checked against reference models",
 "C08": "deterministic simulation with panics injected at chosen callback invocations and seeded schedules; history checks",
 "C09": "deterministic simulation with seeded schedules; recorded callback history checked for exactly-once and arguments",
 "C10": "deterministic simulation with thread stalls and spurious wake-ups; deadlock detection and bounded-step progress",
 "C11": "deterministic simulation with a shadow-checked simulated heap and injected garbage memory and callback values",
 "C12": "deterministic simulation of file I/O with injected open/read/seek failures, short reads, EINTR and truncation",
 "C13": "deterministic simulation of the windowing system (SDL model) with seeded events and injected failures; reference model",
 "C14": "deterministic simulation with a recording canvas that fails at chosen operations; prefix and bounds checks over the history",
 "C15": "deterministic simulation with seeded schedules and histories against a partition reference model",
}
N = {
 "C01": "Seeded search, not exhaustive. Interleavings at basic-block and memory-access granularity of imageproc, rayon and crossbeam; sequentially consistent memory.",
 "C13": "Seeded search over event and failure sequences; SDL is replaced by a model at its C interface, imageproc's window code and the sdl2 crate are real.",
}
DEF = "Seeded search, not exhaustive. Real imageproc, rayon, image and std code on OS threads under a simulated scheduler, clock, entropy source and heap; sequentially consistent memory; trusts the runtime in sim/rt."
PURE = "no schedule, fault, clock, I/O, randomness or call history can influence it: it relates the arguments and the result of one pure call, so simulation would add nothing to plain input generation against a reference. The parts of it that do depend on those are C01-C11."
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "./run build",
     "checks": [], "not_applicable": [],
     "notes": "Deterministic simulation with fault injection; no hooks in /repo: the seams are the library's own closures and traits, the allocator, libc calls and compiler instrumentation added by a rustc wrapper (sim/rustc-wrap.sh). ./run replay FILE re-executes a reported violation."}
for p in props:
    i = p["id"]
    if i in BUILT:
        m["checks"].append({"property": i, "quick_cmd": f"./run {i} quick", "thorough_cmd": f"./run {i} thorough", "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": N.get(i, DEF)})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet" if i in T else f"{p['title']}: {PURE}"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
