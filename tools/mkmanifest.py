#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness directives."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
have = {}
for d, _, fs in os.walk(f"{V}/contracts"):
    for f in fs:
        if f.endswith(".go"):
            for l in open(os.path.join(d, f)):
                m = re.match(r"//gv:harness (\S+) props=(\S+)", l)
                if m:
                    for p in m.group(2).split(","):
                        have.setdefault(p, []).append(m.group(1))
claims = json.load(open(f"{V}/tools/claims.json"))
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
hooks = claims.get("hooks")
if hooks: out["hooks"] = hooks
for p in props:
    c = claims["claims"].get(p)
    if c and have.get(p):
        out["checks"].append({
            "property": p,
            "quick_cmd": f"./check.sh {p} quick",
            "thorough_cmd": f"./check.sh {p} thorough",
            "technique": c.get("technique", claims["technique"]),
            "level": c.get("level", "proof"),
            "level_note": c["note"],
        })
    else:
        out["not_applicable"].append({"property": p, "reason": claims["na"].get(p, "no contract decides it yet (work in progress)")})
json.dump(out, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
print(len(out["checks"]), "claimed;", [x["property"] for x in out["not_applicable"]], "not")
