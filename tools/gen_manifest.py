#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import checks
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "KORIN_VERIF_UNUSED", "enable": "none needed: every monitor observes public behaviour and substituted allocators or element types; no hook was added to /repo", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": checks.NOT_APPLICABLE.get(p["id"], "no check yet (work in progress)")}); continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "technique": c.get("technique", "runtime monitoring: reference-model oracle over seeded histories under ASan+UBSan"), "level": "exploration",
        "level_note": c.get("note", "Holds on every execution explored; histories, values and sizes are sampled from the seed, not enumerated. Trusts the sanitizers, the reference model and the compiler.")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
