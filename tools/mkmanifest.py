#!/usr/bin/env python3
"""Writes MANIFEST.json: a check per property that the harness has, the rest under not_applicable."""
import json, os, re, glob
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
have = set()
for f in glob.glob(root + "/harness/*.go"):
    have |= set(re.findall(r'ID:\s*"(C\d\d)"', open(f).read()))
TECH = {
 "C20": "stateful property-based testing with fault injection: a simulated bank (fake HTTP transport, fake clock) and a reference map of what the state file must hold",
 "C21": "property-based testing with fault injection: save/load round trip of generated values, truncation and write faults",
 "C22": "stateful property-based testing: random interleavings of queries and operations on a book and its duplicates; repetition of whole commands (metamorphic)",
 "C23": "grammar-based and mutational fuzzing of operations, macros, options and arguments against a reference validity predicate",
}
NOTE = "Search over generated cases, so no proof of absence. Trusts the reference model in /verif/harness, the Go toolchain and pgregory.net/rapid."
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for l in open(root + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i, "property-based testing: generated inputs against an independent reference model, with shrinking to a replay file"),
            "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
m["notes"] = "No hooks: the checks use goledger's exported packages and its binary as they are."
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
