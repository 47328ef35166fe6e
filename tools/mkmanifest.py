#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/claims.json (level notes of the claimed properties)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
cl = json.load(open(V + "/tools/claims.json"))
checks = []; na = []
for p in props:
    i = p["id"]
    if i in cl["claimed"]:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="contract-based deductive verification of the real C++ (Clang AST, contracts, SMT); bounded replay of failing inputs on the compiled code",
            level=cl["claimed"][i].get("level", "proof"), level_note=cl["claimed"][i]["note"]))
    else: na.append(dict(property=i, reason=cl["na"].get(i, "not brought under contract yet")))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
    notes="No hooks are needed: contracts live in /verif/contracts and are attached by name to the functions of /repo, whose text is read unmodified on every run."),
    open(V + "/MANIFEST.json", "w"), indent=1)
