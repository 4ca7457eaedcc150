#!/usr/bin/env python3
"""Writes MANIFEST.json from areas.PROPS and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from areas import PROPS, NOTES  # noqa: E402
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in ids:
    if p in PROPS:
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                       "technique": "TLA+ specification checked with TLC; TLC-generated cases executed on the real code; the execution log validated against the specification by TLC (trace conformance)",
                       "level": "model_checking", "level_note": NOTES.get(p, "")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none (the harness uses the public API only)", "enable": "nothing to enable", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in PROPS],
     "notes": "Every check builds /verif/harness against /repo's working tree; no setup output is needed. Seeded by VERIF_SEED."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
