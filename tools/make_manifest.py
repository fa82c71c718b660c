#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist in check.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
SEARCH = "Random and structured generated-input search; a pass means no counterexample among the cases counted in the evidence, not a proof. "
ORACLE = "Trusts the exact multi-limb reference (core/oracle.hpp), itself tested against independent arithmetic by setup_cmd. "
CG = "; coverage-guided libFuzzer stage with the same checker"
T = {
 "C01": ("property-based testing: generated values x all nearest modes x settings, exact interval-membership oracle", SEARCH + ORACLE + "Thorough enumerates every float."),
 "C02": ("property-based testing: generated values, exact minimal-length oracle plus search-on/off relation", SEARCH + ORACLE + "Thorough enumerates every float."),
 "C03": ("property-based testing: generated values, exact closest-candidate oracle", SEARCH + ORACLE + "Thorough enumerates every float."),
 "C04": ("property-based testing: tie-constructing generators, exact tie oracle and policy-agreement relation", SEARCH + ORACLE + "Thorough enumerates every float."),
 "C05": ("property-based testing: generated values x directed modes, exact interval-membership oracle", SEARCH + ORACLE + "Thorough enumerates every float."),
 "C06": ("property-based testing: generated values x directed modes, exact minimal-length oracle", SEARCH + ORACLE + "Thorough enumerates every float."),
 "C07": ("property-based testing: generated values x directed modes, exact closest-candidate oracle", SEARCH + ORACLE + "Thorough enumerates every float."),
 "C08": ("property-based testing: invariant on every returned decimal", SEARCH + "Order of magnitude is taken from the exact reference."),
 "C09": ("metamorphic property-based testing: static-boundary mode against dynamic mode", SEARCH),
 "C10": ("metamorphic property-based testing: negation, mirrored modes, signed against unsigned form", SEARCH),
 "C11": ("differential property-based testing: generated text against an independent renderer of the returned decimal", SEARCH + "The decimal itself is the library's own; its correctness is C01-C10."),
 "C12": ("property-based testing with canaries and guard pages around the buffer", SEARCH + "Sees writes and (guard pages) reads outside the text; a write that restores the previous byte is not seen."),
 "C13": ("property-based testing over special patterns (all float NaNs enumerated), fixed-text oracle", SEARCH),
 "C14": ("exhaustive (float) and property-based (double) comparison with the IEEE-754 field definition", "Every float pattern is enumerated in both tiers; doubles are sampled over special, boundary and uniform patterns; constant evaluation is compared on 12000 (quick) generated patterns in each compiler."),
 "C15": ("round-trip property-based testing through strtof/strtod (all rounding directions) and from_chars", SEARCH + "Trusts glibc and libstdc++ number parsing."),
 "C16": ("stateful/model-based property testing of generated call histories on one and many threads, plus ThreadSanitizer", SEARCH + "Thread interleavings are whatever the scheduler gives; data races are found by ThreadSanitizer on the accesses that occur."),
 "C17": ("differential property-based testing across builds (compilers, optimisation, 32-bit, portable and intrinsic paths)", SEARCH + "The other supported compiler's intrinsics are emulated on its preprocessor path."),
 "C18": ("property-based fuzzing under AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer and assertions, generated cases and call sequences in 7 builds plus a coverage-guided libFuzzer run", SEARCH + "Undefined behaviour is what the sanitizers detect."),
 "C19": ("exhaustive generated-input comparison with exact integer logarithms", "Complete over the documented ranges, at run time and in constant evaluation."),
 "C20": ("exhaustive comparison of table entries with exact powers; hard-input search per exponent with the exact oracle", "Complete for the entries; " + SEARCH + ORACLE),
 "C21": ("property-based testing with limb-structured operands against exact arithmetic, on each preprocessor path", SEARCH),
 "C22": ("property-based testing of every call form and of recording case handlers, against the plain call", SEARCH),
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        cg = CG if i <= "C15" else ""
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T[i][0] + cg, "level": "exploration", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in the repository; three 'fix:' commits repair genuine defects (known_findings.txt). Every check rebuilds from the current tree of /repo in a scratch directory under /tmp."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
