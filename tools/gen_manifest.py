#!/usr/bin/env python3
# writes MANIFEST.json from the property list and check.py's table
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + "/check.py").read()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = set()
for m in re.finditer(r'\("([A-Z0-9 ]+)", dict\(tu=\["(\w+\.cc)"', src):
    if os.path.exists(V + "/pbt/" + m.group(2)):
        for i in m.group(1).split():
            if re.search(r'PBT(?:_KNOWN)?\(%s,' % i, open(V + "/pbt/" + m.group(2)).read()):
                have.add(i)
have |= {"T01", "R01"}
NOTE = {"C12": "Real threads under ThreadSanitizer; each thread's results are compared with a run on its own. Detects unordered accesses that happen in the explored runs; schedules are those of the machine, not enumerated.",
        "R01": "Runs every sequential harness on a build with address and undefined sanitizers, pattern-initialised locals and leak accounting (each case repeated, growth of live memory is a leak). Heap memory read before it is written is only seen when it changes an answer.",
        "M01": "Gateways are built against a stand-in for MATLAB's mex.h (pbt/mock/mex.h) under an address/undefined sanitizer and driven by command sequences next to the library called directly. MATLAB itself is not there: the stand-in is trusted. Matrices other than double, out-of-range indices and handles of deleted objects are outside the domain.",
        "M02": "The classes' own source is run by an interpreter for the part of MATLAB they use (pbt/mlang.hh), over the real gateways and a stand-in for mex.h, next to the library called directly. The interpreter and stand-ins for the ACME toolbox classes and the drawing functions are trusted; a case that meets a construct the interpreter does not know is skipped and counted in the evidence.",
        "F03": "Generated and mutated files and paths run against an address/undefined-sanitized build; a crash, sanitizer report, hang or non-standard exception is a violation."}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "property-based testing: generated inputs against an explicit oracle, with shrinking",
            "level": "exploration",
            "level_note": NOTE.get(i, "Searches generated cases on the real code built from /repo; shows no violation on the cases explored, never absence. Trusts the generators and the oracle described in DESIGN.md; decision boundaries within the stated tolerance accept either answer."),
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "ENVE_VERIF_HOOKS", "enable": "no hook is needed: the checks compile /repo's sources as they are", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
