#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py (kept in step by construction)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
import checks, props

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p.get("observe"):
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
ids = [p["id"] for p in props.PROPS]
assert len(set(ids)) == len(ids)
assert all(len(p["title"]) <= 80 for p in props.PROPS), [p["title"] for p in props.PROPS if len(p["title"]) > 80]
assert set(checks.PROPERTIES) <= set(ids), set(checks.PROPERTIES) - set(ids)
m = {"version": 1, "setup_cmd": "python3 run.py setup", "hooks": {"guard": "none", "enable": "no hooks are needed: the checks compile the unmodified sources of /repo", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props.PROPS:
    i = p["id"]
    if i in checks.PROPERTIES and checks.PROPERTIES[i].get("harnesses"):
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py check %s quick" % i, "thorough_cmd": "python3 run.py check %s thorough" % i,
                            "technique": checks.PROPERTIES[i].get("technique", "symbolic execution of the compiled sources (LLVM IR), every path decided by an SMT solver (z3)"),
                            "level": "other", "level_note": checks.PROPERTIES[i]["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": p.get("na", "no check has been built for this property yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
