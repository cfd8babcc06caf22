#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
N = {
"C01": "Seeded histories over all operations, formats and ambient settings; every step is compared with the same operation alone in a pristine process. Sampled, not exhaustive.",
"C02": "2-4 simulated threads, preempted at any memory access by the seed; every step compared with its sequential result in a pristine process; crashes, deadlock and changes of shared constants are violations. Sampled schedules; libmpfr/libgmp/libstdc++ binaries run between scheduling points.",
"C03": "Every step of random multi-format computations is judged against an oracle that evaluates the exact function with MPFR at higher precision. Histories, environments and faults are sampled. Trusts MPFR at another precision.",
"C04": "Expected flag and trap words are computed from operands by a small model for every step of every thread under seeded schedules.",
"C05": "As C04 with traps enabled: exception type, target, operands, flags and the operations that follow are compared with model and pristine-process reference.",
"C06": "Seeded end-of-file, device error or exception at every position of well- and malformed literals; the outcome is judged by a model of the literal grammar with exact rational bounds.",
"C07": "The same characters in seeded chunks, locales, exception masks and sequences against one-piece delivery in a pristine process and against the literal model.",
"C08": "Mutated, truncated, very long and extreme literals; work is counted in instrumented memory accesses and bytes requested, the value judged by the exact literal model. Literals up to about 6000 characters.",
"C09": "Seeded device failures (refusal, short write, exception) and allocation failures at any position in all representations; delivered text compared with a working device's, stream words compared before and after.",
"C10": "Write, store (optionally cut), read back on living streams with changing manipulators, locales and environment; the value read must enclose the value written.",
"C11": "All blocks from operator new, malloc seams of GMP/MPFR with guard areas and instrumented accesses checked for bounds and use after release; live bytes must not grow under repetition.",
"C12": "The k-th (or every later) allocation through operator new fails, k seeded; outcome, target, flags and the repeated operation are judged. GMP/MPFR's own allocator aborts by design and is not failed.",
"C13": "Reductions against exact rational sums, with permuted deliveries, throwing and re-entrant iterators, allocation failures and other threads.",
"C14": "Decorations along random computations against an independent model of domain and continuity, and decorated against bare evaluation.",
"C15": "Each result along random histories against the smallest enclosing interval, computed exactly or by MPFR at higher precision from the definition; trigonometric reverse operations only as subset of the argument.",
"C16": "Each relation along random histories against its set-theoretic definition on exact endpoints; pairs drawn from a pool of touching, nested and equal endpoints.",
"C17": "As C15 for operands of two or three formats and any result format, all combinations compiled in.",
}
NA = {
"C18": "a property of compiling and linking translation units; nothing is scheduled or fails at run time (manipulators applied in another unit are decided under C09/C10)",
}
m = {"version": 1, "setup_cmd": "python3 check.py --build",
 "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
   "technique": "deterministic simulation with fault injection (seeded search)", "level": "exploration", "level_note": N[p]} for p in sorted(N)],
 "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA)],
 "notes": "No hooks in /repo: the harness compiles the working tree's headers with compiler-inserted memory-access hooks (-fsanitize=thread instrumentation, own runtime) and takes over scheduling, allocation, streams and iterators. See DESIGN.md."}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
