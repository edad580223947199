#!/usr/bin/env python3
# Source of /verif/MANIFEST.json: every property with a registered scenario is claimed, the rest is not_applicable.
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = set()
for f in glob.glob(V + "/checks/*.cpp"): have |= set(re.findall(r'Register \w+\("(C\d\d)"', open(f).read()))
NA = {
 "C19": "Pure functions over bytes already in memory: no schedule, time, I/O, fault or party the result could depend on, so a simulator has nothing to decide; plain property-based testing would be another technique.",
 "C20": "Pure functions from a string to bytes; the only environment input is the CPU, which cannot be simulated in-process. (The decoders do run inside the simulated base64 callbacks of C09, for memory safety.)",
 "C21": "Pure string parsing without I/O, time or concurrency. (The path of a URI to a simulated file is exercised by C03, C11 and C12.)",
 "C22": "Pure arithmetic without I/O, time or concurrency.",
 "C23": "A function of input and options only: no fault, schedule or history can influence it beyond what C01 and C06 already vary.",
}
NOTE = {
}
GEN = "Seeded random search over simulated runs: no violation found in the runs explored, with every run replayable from its seed; it does not enumerate. Trusts the simulated storage (in-memory files behind the libc calls), the reference encoder/dump in model/, and the address/undefined-behaviour sanitizers. "
checks = []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i, "evidence_file": "evidence/%s.json" % i,
          "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": GEN + NOTE.get(i, "")})
na = [{"property": p["id"], "reason": NA.get(p["id"], "No check has been built yet.")} for p in props if p["id"] not in have]
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is outside the library (libc file calls, operator new/delete, pthread primitives, callbacks, compiler-inserted access callbacks). /repo carries only fix: commits."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
