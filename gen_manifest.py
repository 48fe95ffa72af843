#!/usr/bin/env python3
"""Write MANIFEST.json from the check registry and properties.jsonl."""

import json
from pathlib import Path

from spa.registry import CHECKS, NOT_APPLICABLE

here = Path(__file__).resolve().parent
props = [json.loads(line) for line in (here / "properties.jsonl").read_text().splitlines()]
checks = []
for p in props:
    if p["id"] not in CHECKS:
        continue
    _, technique, note = CHECKS[p["id"]]
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"python3 check.py {p['id']} --thorough",
            "technique": "static analysis: " + technique,
            "level": "other",
            "level_note": note,
        }
    )
na = [
    {"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "no check has been built for it yet")}
    for p in props
    if p["id"] not in CHECKS
]
(here / "MANIFEST.json").write_text(
    json.dumps({"version": 1, "setup_cmd": "python3 --version", "checks": checks, "not_applicable": na}, indent=1) + "\n"
)
