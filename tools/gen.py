#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py and props.py."""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from spec import S, NA

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in S:
        f.write(json.dumps(p) + "\n")
checks = []
for p in S:
    i = p["id"]
    if i not in PROPS:
        continue
    checks.append({
        "property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the compiled code (LLVM IR of /repo) with z3 deciding branches and assertions",
        "level": "model_checking",
        "level_note": "Every path within the stated bounds is followed and every assertion decided for all values of the symbolic inputs; bounds per harness are in the evidence file. Outside: " + PROPS[i]["outside"] + ". Trusted: rustc/LLVM front end, the engine (cross-checked by native replay of sampled paths and of every counterexample), z3.",
    })
na = [{"property": k, "reason": v} for k, v in NA.items()]
ids = {p["id"] for p in S}
assert {c["property"] for c in checks} | set(NA) == ids, (ids - {c["property"] for c in checks} - set(NA))
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
     "notes": "tools/spec.py and tools/props.py are the sources of properties.jsonl and of this file (tools/gen.py)."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

rows = ["| Property | Harness | What it decides | Bounds (quick / thorough) |", "|---|---|---|---|"]
for p in S:
    i = p["id"]
    for n, h in enumerate(PROPS.get(i, {}).get("harnesses", [])):
        q, t = h["bounds"]
        rows.append("| %s | `%s` | %s | %s |" % ("**%s** %s" % (i, p["title"]) if n == 0 else "", h["name"], h["what"].replace("|", "\\|"), (q if q == t else q + " / " + t).replace("|", "\\|")))
d = open(V + "/DESIGN.md").read()
a, b = d.index("<!-- table -->"), d.index("<!-- /table -->")
d = d[:a] + "<!-- table -->\n" + "\n".join(rows) + "\n" + d[b:]
open(V + "/DESIGN.md", "w").write(d)
