#!/usr/bin/env python3
"""reg.py PROP rule quick-bounds thorough-bounds bin:variant[:flags] ... registers a check (development helper)"""
import json, sys
V = "/verif/"
def dump(p, d): open(p, "w").write("{\n" + ",\n".join(f'"{k}": {json.dumps(v)}' for k, v in sorted(d.items())) + "\n}\n")
prop, rule, q, t = sys.argv[1:5]
h = json.load(open(V + "harness/harness.json")); c = json.load(open(V + "harness/checks.json"))
run = []
for b in sys.argv[5:]:
    name, variant, *fl = b.split(":")
    src = f"harness/{prop.lower()}.cpp"
    e = h.get(name, {}); e.update({"variant": variant, "src": e.get("src", [src])})
    if fl: e["flags"] = fl
    h[name] = e
    run.append({"bin": name})
old = c.get(prop, {}); old.update({"run": run, "rule": rule, "bounds": {"quick": q, "thorough": t}})
c[prop] = old
dump(V + "harness/harness.json", h); dump(V + "harness/checks.json", c)
