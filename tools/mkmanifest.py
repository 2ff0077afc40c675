#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
NOTE = {
    "default": "TLC judges every recorded call of the real code against the specification (total oracle, W=32); inputs are enumerated where small, otherwise generated from the seed. Trusted: the recorder and TLC.",
    "hist": "TLC enumerates all histories up to a bound (and long random ones) from the specification; each is replayed in the real code and every observation judged by TLC; the design itself is model-checked. Trusted: the recorder and TLC.",
}
HIST = {"C09", "C10", "C11", "C12", "C18", "C22", "C24", "C25"}
checks, na = [], []
for line in open("properties.jsonl"):
    p = json.loads(line)["id"]
    if os.path.exists(f"props/{p.lower()}.py"):
        h = p in HIST
        checks.append({
            "property": p,
            "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
            "technique": ("TLA+ state machine: TLC-generated histories replayed into the real code, responses judged by TLC"
                          if h else "TLA+ specification as oracle: TLC judges recorded calls of the real code (trace conformance)"),
            "level": "model_checking",
            "level_note": NOTE["hist" if h else "default"],
        })
    else:
        na.append({"property": p, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ (TLC). See DESIGN.md. No hooks in /repo are needed."}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
