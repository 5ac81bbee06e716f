#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "checks")]
import importlib
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "checks")) if f[0] == "c" and f[1:3].isdigit()}
NAMES = dict(rapidcheck="rapidcheck property-based tests of the library", generated="seeded choice-sequence generation of program runs with shrinking", libfuzzer="coverage-guided fuzzing with sanitizers (libFuzzer)")
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append(dict(property=i, reason="check not built yet"))
        continue
    m = importlib.import_module(i.lower())
    kinds = []
    for x in m.PARTS:
        if NAMES[x.kind] not in kinds:
            kinds.append(NAMES[x.kind])
    checks.append(dict(property=i, quick_cmd="python3-vt checks/run.py %s --tier quick" % i, thorough_cmd="python3-vt checks/run.py %s --tier thorough" % i,
                       technique="property-based testing: " + "; ".join(kinds) + " against an independent oracle",
                       level="exploration",
                       level_note="Generated search, not proof: no violation among the cases counted in the evidence file. Assumes: " + "; ".join(m.ASSUMPTIONS) + "."))
man = dict(version=1, setup_cmd="python3-vt checks/run.py --setup", checks=checks, not_applicable=na)
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
