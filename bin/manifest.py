#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks
V = os.path.dirname(HERE)
ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl")) if x.strip()]
m = {"version": 1, "setup_cmd": "python3 bin/build.py",
     "hooks": {"guard": "LPP_VERIF_HOOKS", "enable": "bin/build.py compiles /repo's sources with -DLPP_VERIF_HOOKS; no hook has been needed in /repo so far", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in ids:
    if p in checks.CLAIMED:
        m["checks"].append({"property": p, "quick_cmd": "python3 bin/check.py " + p, "thorough_cmd": "python3 bin/check.py %s --thorough" % p,
                            "technique": checks.TECH.get(p, "TLA+ specification of the index, validated by TLC against recorded executions of the real code"),
                            "level": "model_checking", "level_note": checks.NOTE.get(p, checks.DEFNOTE)})
    else:
        m["not_applicable"].append({"property": p, "reason": checks.NA.get(p, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
