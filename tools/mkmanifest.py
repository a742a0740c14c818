#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
chk = json.load(open(V + "/harness/checks.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
reasons = {}
out = {"version": 1, "setup_cmd": "python3 tools/vbuild.py", "checks": [], "not_applicable": []}
for p in props:
    if p in chk:
        c = chk[p]
        out["checks"].append({
            "property": p, "quick_cmd": f"./run.py {p}", "thorough_cmd": f"VERIF_TIER=thorough ./run.py {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": c.get("technique", "model checking: exhaustive stateless enumeration of executions of the real code against a reference model"),
            "level": c.get("level", "model_checking"),
            "level_note": c.get("rule", "") + " Bounds (quick): " + c.get("bounds", {}).get("quick", "see DESIGN.md") +
                          ". Assumes: " + ("; ".join(c.get("assumptions", [])) or "compiler, sanitizer and BLAS are right; single OpenMP thread")})
    else:
        out["not_applicable"].append({"property": p, "reason": reasons.get(p, "no check built yet")})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
