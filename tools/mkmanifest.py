#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/config.py."""
import json, sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent))
import config
checks, na = [], []
for pid, c in sorted(config.PROPS.items()):
    if c.get("na"):
        na.append({"property": pid, "reason": c["na"]})
        continue
    checks.append({"property": pid, "quick_cmd": f"./check.sh {pid}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {pid}",
                   "evidence_file": f"evidence/{pid}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "cargo build -q --offline --manifest-path engine/Cargo.toml --target-dir target", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks in /repo: the contracts live in /verif/overlay and are woven into the source on every run. /repo carries only fix: commits (known-findings.txt)."}
(config.ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
