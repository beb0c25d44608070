#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and mc/harness.json"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
harness = json.load(open(os.path.join(here, "mc/harness.json")))
notes = json.load(open(os.path.join(here, "tools/notes.json")))
checks, na = [], []
TECH = "stateless explicit enumeration of executions of the real library against a reference model in lock-step"
NOTE = "Exhaustive within the stated bounds on the library compiled from the working tree; trusts the reference model, the compiler and the stand-ins for malloc, exit, clock and host name. "
for p in props:
    i = p["id"]
    if i in harness:
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"env VERIF_TIER=thorough python3 check.py {i}", evidence_file=f"evidence/{i}.json",
                           technique=n.get("technique", TECH), level="model_checking", level_note=NOTE + n.get("note", "")))
    else:
        na.append(dict(property=i, reason="not claimed yet: no check has been built for it so far"))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: termination, allocation, clock and host name calls are redirected in the compiled objects. See DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
