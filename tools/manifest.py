"""Write MANIFEST.json from the list of checks."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; recorded calls of the real code validated against it (trace validation)"
NOTE = (
    "Exact for the executed calls: outputs of the real code on random integer data and integer filter banks are "
    "compared entry by entry, modulo a prime, with what the TLA+ specification computes. Exploration of inputs is "
    "seeded sampling, not exhaustive; assumes rounding errors stay below 0.01 for values below 2^40."
)
EXTRA = json.load(open(os.path.join(HERE, "tools", "notes.json")))

checks = []
na = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "harness", "props", p.lower() + ".py")):
        checks.append(
            {
                "property": p,
                "quick_cmd": f"VERIF_TIER=quick python3 -m harness.check {p}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 -m harness.check {p}",
                "evidence_file": f"evidence/{p}.json",
                "technique": EXTRA.get(p, {}).get("technique", TECH),
                "level": "model_checking",
                "level_note": EXTRA.get(p, {}).get("note", NOTE),
            }
        )
    else:
        na.append({"property": p, "reason": "check under construction"})
json.dump(
    {
        "version": 1,
        "setup_cmd": "python3 -m harness.setup",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: the public API exposes the abstract state. TLA+ with TLC; see DESIGN.md.",
    },
    open(os.path.join(HERE, "MANIFEST.json"), "w"),
    indent=1,
)
print(len(checks), "checks;", len(na), "not claimed")
