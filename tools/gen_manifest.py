#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks.json and tools/na.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl") if l.strip()]
specs = json.load(open(here + "/checks.json"))
na = json.load(open(here + "/tools/na.json"))
checks, nas = [], []
for p in props:
    i = p["id"]
    if i in specs:
        s = specs[i]
        checks.append({
            "property": i,
            "quick_cmd": "bin/symgo check %s quick" % i,
            "thorough_cmd": "bin/symgo check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the Go SSA of /repo with SMT (z3) deciding every branch and assertion; counterexamples replayed natively",
            "level": s.get("level", "model_checking"),
            "level_note": s.get("note", "Exhaustive within the stated bounds when the evidence says all_paths_within_bounds_explored; assumes the executor's model of the Go runtime and the listed stand-ins.") ,
        })
    else:
        nas.append({"property": i, "reason": na.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "bash build.sh",
     "checks": checks, "not_applicable": nas,
     "notes": "Harnesses are overlaid into /repo's packages at load time; /repo is not changed. See DESIGN.md."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(here + "/MANIFEST.json", "a").write("\n")
