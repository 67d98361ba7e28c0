#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = " Trusts the reference model (two independent forms, checked against 565 vectors made with hashlib and the designers' test vectors at the start of every run) and the compiler."
T = {
 "C01": ("property-based testing against a reference model (exhaustive small enumerations, random parameters and messages, one run past 4 GiB)",
         "Random and enumerated search over parameters x messages; every length to 1100 and every value of each one-byte parameter, every bit of the wide ones." + MODEL),
 "C02": ("stateful property-based testing against a reference model (all two-way splits to 280 bytes, random histories)",
         "Every split in two of every length to 280, edge triples, random histories up to 4 MiB, histories from states just below 4 GiB." + MODEL),
 "C03": ("stateful property-based testing against a reference model (pool of states, clones, flags)",
         "Random histories over ten states, plus finalize at every buffer fill." + MODEL),
 "C04": ("property-based testing against a reference model (every length to 2700, every digest x key length, random)",
         "As C01, for BLAKE2sp." + MODEL),
 "C05": ("stateful property-based testing against a reference model, with one run past 32 GiB",
         "Every first update to 1100 bytes, edge triples, random histories; leaves past 4 GiB." + MODEL),
 "C06": ("stateful property-based testing against a reference model (eight-state operations over a pool of states)",
         "Random and enumerated lane fills, lengths and parameters; lanes past 4 GiB." + MODEL),
 "C07": ("property-based testing against a reference model (eight-input calls, keyed rejection)",
         "Random and enumerated lane lengths and parameters; inputs past 4 GiB." + MODEL),
 "C08": ("property-based testing against a reference model (equal whole-block inputs, keyed and not)",
         "Every block count to 60, random parameters, inputs past 4 GiB." + MODEL),
 "C09": ("property-based testing: ill-formed inputs must panic (enumerated one- and two-lane errors, random)",
         "Every equal length to 4200, every one-lane deviation in the enumerated set, random lengths, lanes differing by multiples of 2^8 to 2^34."),
 "C10": ("differential testing of the portable, SSE4.1 and AVX2 kernels and of states forced to portable code, with the model as referee",
         "Random words, counters over all 64 bits and flags; every single counter/word/message bit." + MODEL),
 "C11": ("differential testing of every interface on inputs past 4 GiB, looked at at many lengths around 2^32; states fed past 2^32 bytes in a 32-bit process too",
         "Lengths around 2^32 (and 2^35 for BLAKE2sp) only; counters further up are reached through the kernels in C10." + MODEL),
 "C12": ("property-based testing: enumerated and random setter arguments, legal and not, against a model of the parameter record",
         "Every value of every small domain, random wide ones, values congruent to legal ones modulo every power of two, slices of up to 16 GiB."),
 "C13": ("stateful property-based testing of setter sequences against a record model (metamorphic: order, repetition, clones, Default)",
         "Random sequences of setter calls." + MODEL),
 "C14": ("metamorphic property-based testing: pairs of descriptions differing in one respect, and families of related descriptions, must give different digests",
         "A truncated digest can collide by chance; only comparisons where that has probability below 2^-64 count."),
 "C15": ("property-based testing of Hash: equality, hex, debug, as_bytes, clone against byte-string semantics",
         "All digest lengths, random and crafted contents, equal prefixes and single-bit differences, slices of up to 8 GiB."),
 "C16": ("metamorphic testing: the instruction trace of one comparison, recorded by hardware single-stepping, must not depend on where (or whether) the bytes differ",
         "Covers the code as compiled here by these compilers; data-dependent instruction timing is out of reach."),
 "C17": ("metamorphic property-based testing: the same history with other key and message contents must print the same, and nothing printed may contain the contents",
         "Random histories, seven format styles."),
 "C18": ("property-based testing and fuzzing with fault detectors: inputs between inaccessible pages, AddressSanitizer, MemorySanitizer and Miri, over all interfaces",
         "Miri interprets a few dozen short cases in quick; guard pages see all generated ones, AddressSanitizer and MemorySanitizer a share of them. Miri runs without its aliasing model (Stacked Borrows)."),
 "C19": ("differential property-based testing over platforms: std and no_std natively, on six pretended lesser CPUs (CPUID faulting, every executed instruction watched), in a native 32-bit x86 process, and under Miri on x86_64 with four feature sets, 32-bit x86 and big-endian s390x",
         "Platforms other than x86 are interpreted, so only short cases run there." + MODEL),
 "C20": ("concurrent property-based testing: random histories per thread against the model, objects moved and shared between threads, generated one-preemption schedules at instruction granularity, first use in fresh processes, ThreadSanitizer, and Miri's data-race detector over several schedules",
         "Schedules are sampled: the native ones by the OS or with whole uses inside another one at generated instructions, the interpreted ones by seed." + MODEL),
 "C21": ("stateful property-based testing of io::Write (twelve ways of writing) against the model",
         "std builds only, as the trait exists only there." + MODEL),
 "C22": ("metamorphic property-based testing: one use of one interface with many contents of the same lengths must leave the same trace (coverage callbacks on edges and accessed addresses; hardware single-stepping)",
         "The callbacks see the crate and its dependencies as compiled by LLVM before its last stages, and no vector loads' addresses; single-stepping sees the final machine code, for short inputs. Instruction timing is out of reach."),
 "C23": ("property-based testing with resource monitors: a counting global allocator and a stack watermark around one use of one interface",
         "Calls as compiled here with optimization; rejected calls (which panic, and may allocate doing so) are excluded."),
 "C24": ("property-based testing for totality: legal histories and calls in every build mode must not panic, crash or hang, and their cost in edges and accesses is counted against a linear bound",
         "Costs are counted for inputs to 3 MiB; inputs past 4 GiB are only required to return, in builds with debug assertions and overflow checks."),
}
LED = ["C%02d" % i for i in range(1, 25) if i not in (11, 20)]
for p in LED:
    t, n = T[p]
    T[p] = (t + "; coverage-guided fuzzing led by the comparisons the crate makes", n)
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s --thorough" % p,
        "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration", "level_note": n,
    } for p, (t, n) in T.items()],
    "not_applicable": [],
    "notes": "No hooks: the crate's doc-hidden benchmarks module already exposes the kernels. Known findings: known_findings.txt (all repaired).",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
assert ids == list(T), (ids, list(T))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
