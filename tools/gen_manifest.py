#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); os.chdir(V)
from specs import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for p in props:
    if p not in CHECKS: continue
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --tier thorough",
        evidence_file=f"evidence/{p}.json", technique=c.get("technique", "deterministic simulation with fault injection"),
        level="exploration", level_note=c["note"]))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "no simulated world has been built for it yet")) for p in props if p not in CHECKS]
json.dump(dict(version=1, setup_cmd="python3 build.py", checks=checks, not_applicable=na,
    hooks=dict(guard="none", enable="No hooks in /repo: every seam is taken over at link time (--wrap) and by compiler instrumentation in /verif/build.py.", source_commits=[]),
    notes="Every check builds the simulator from /repo's working tree into /verif/build/<content hash>. VERIF_SEED selects the base seed. replay.py <file> re-executes a replay file."), open("MANIFEST.json", "w"), indent=1)
