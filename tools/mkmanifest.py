#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
specs = set(re.findall(r'^\t"(C\d\d)": \{', open(root + "/engine/specs.go").read(), re.M))
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
NA = {}
checks = []
for p in props:
    if p in specs and p not in NA:
        checks.append(dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
            technique="symbolic execution of the Go SSA of the real code, assertions decided by SMT (z3, cvc5), counterexamples replayed natively",
            level="model_checking", level_note="every path of the harness within the stated input bounds; the bounds are in the evidence file and DESIGN.md"))
na = [dict(property=p, reason=NA.get(p, "check under construction")) for p in props if p not in [c["property"] for c in checks]]
m = dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=na)
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "not applicable")
