#!/usr/bin/env python3
# Source of MANIFEST.json.
import json, os
from registry import CHECKS
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
T = {
 "C17": ("interposed allocator (malloc family, operator new) counting during every call", "Every operation of the library at sampled element types and shapes; trusts glibc's allocator entry points to be the only source of dynamic memory (mmap and sbrk are interposed too where the C library lets them be)."),
 "C18": ("AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer, valgrind memcheck, libstdc++ assertions; redzone and poison monitors", "Every operation at sampled element types, shapes and inputs under four independent instruments; an access that stays inside the same row object is visible only through the libstdc++ bounds assertions."),
 "C19": ("ThreadSanitizer, read-only operand pages, history and concurrency replay against a recorded baseline", "Sampled histories and schedules of every operation; ThreadSanitizer reports races it can order from the schedules that ran."),
 "C20": ("differential execution of the same program over compilers, standards, optimisation levels and translation units, compared by result log", "gcc 13 and clang 18 only, the ones installed; C++11 to C++20."),
 "C21": ("AddressSanitizer and libstdc++ assertions on the real benchmark programs", "Runs every registered benchmark for a short time; timing is not judged."),
 "C22": ("lock-step reference interpreter over random programs of library calls", "Random straight-line programs over shapes up to 5x5; exact (modular) arithmetic on both sides."),
}
D = ("online oracle (reference model in exact or wider arithmetic) on every call, under plain, AddressSanitizer and UndefinedBehaviorSanitizer builds",
     "Judges every observed call with an oracle independent of the library; inputs are sampled from hostile families over many element types and shapes, not enumerated. Trusts the compiler and the reference arithmetic (128-bit integers, __float128, rational or modular arithmetic).")
T["C15"] = ("captured standard output checked against an independent formatter", D[1])
T["C16"] = ("trace monitor over call sequences with injected undefined requests, judged against exact arithmetic, under plain and sanitizer builds", D[1])
checks = []
for p in props:
    i = p["id"]
    if i not in CHECKS: continue
    t, n = T.get(i, D)
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=t, level="exploration", level_note=n))
na = [dict(property=p["id"], reason="check under construction") for p in props if p["id"] not in CHECKS]
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the library is header only, so every monitor observes it from its own harness, built from /repo's working tree.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
