#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table in tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools"); sys.path.insert(0, V)
from props import PROPS
from plan import CHECKS
out, checks, na = [], [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"].split(), "text": p["q"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"].split(), "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
    if p["id"] in CHECKS:
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                       "technique": p["tech"], "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"]})
assert not set(CHECKS) - {p["id"] for p in PROPS}
open(V + "/properties.jsonl", "w").write("".join(json.dumps(o) + "\n" for o in out))
json.dump({"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harnesses compile /repo's sources against the stub headers in sim/include and replace Mercury, MPI, threads, clock and file system at the library boundary."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(out), "properties,", len(checks), "claimed")
