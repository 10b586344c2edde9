#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/suites.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import suites as S
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in S.SUITES:
        continue
    mods = sorted({x["module"] for t in S.SUITES[p].values() for x in t} | {x["trace"]["module"] for t in S.SUITES[p].values() for x in t if x.get("trace")})
    tr = any(x.get("trace") for t in S.SUITES[p].values() for x in t)
    checks.append(dict(property=p, quick_cmd=f"python3 bin/check.py {p} --tier quick", thorough_cmd=f"python3 bin/check.py {p} --tier thorough",
        technique="TLA+ model (" + ", ".join(mods) + ") checked with TLC; its behaviours replayed into the library" + ("; recorded traces validated by TLC" if tr else ""),
        level=S.LEVEL.get(p, "model_checking"),
        level_note=S.NOTE.get(p, "Exhaustive (or seeded random where the space is larger) over the bounded specification; conformance by replaying every terminal state. Trusts TLC, the harness renderer and comparison.")))
na = [dict(property=p, reason=S.NA.get(p, "check under construction")) for p in props if p not in S.SUITES]
json.dump(dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
