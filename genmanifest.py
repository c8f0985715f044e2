#!/usr/bin/env python3
"""Rewrite MANIFEST.json from the rule table (run by hand after adding rules)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "mx"))
import rules

NA = {
    "C28": "how many digits survive is decided by the runtime float parser and printer of std, serde_json and quick-xml; no sound static argument over this source bounds it",
    "C29": "samples are produced at run time by an external data generator from JSON scenario files; their validity is a property of runtime data, not of this source",
    "C30": "the code contains no cross-field rules to analyse and the published rules are not in the sandbox, so there is no construct to decide",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "python3 check.py --facts", "checks": [], "not_applicable": []}
for p in props:
    r = rules.RULES.get(p)
    if r:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                            "technique": r.technique, "level": "other", "level_note": r.note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no rule yet (in progress)")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
