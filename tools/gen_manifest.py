#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the table of checks in /verif/check."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, "check")).read()
have = sorted(set(re.findall(r'"(C\d\d)":', src)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
exec(open(os.path.join(V, "tools", "manifest_text.py")).read())
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in have:
        t, note = TECH[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 /verif/check %s" % p, "thorough_cmd": "python3 /verif/check %s" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "other", "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check is built for it yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
