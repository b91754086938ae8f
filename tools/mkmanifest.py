#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules; unclaimed properties are listed with their reason."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from vp.runner import load_meta
REASONS = {}
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "vp/props" / (i.lower() + ".py")).exists():
        m = load_meta(i)
        checks.append(dict(property=i, quick_cmd=f"./check {i} --tier quick", thorough_cmd=f"./check {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                           technique=m["technique"], level=m["level"], level_note=m["level_note"]))
    else:
        na.append(dict(property=i, reason=REASONS.get(i, "no check built yet; the runtime monitor planned for it is described in DESIGN.md")))
json.dump(dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
               notes="Every check is ./check ID [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]. No hooks are compiled into /repo."),
          open(V / "MANIFEST.json", "w"), indent=1)
print("claimed", [c["property"] for c in checks], "unclaimed", [n["property"] for n in na])
