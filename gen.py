#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/catalog.py and lib/registry.py."""
import json
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF / "lib"))
from catalog import CATALOG  # noqa: E402
import catalog  # noqa: E402
import registry  # noqa: E402

NOT_APPLICABLE = getattr(catalog, "NOT_APPLICABLE", {})

fields = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
with open(VERIF / "properties.jsonl", "w") as f:
    for c in CATALOG:
        assert len(c["title"]) <= 80, c["title"]
        f.write(json.dumps({k: c[k] for k in fields}) + "\n")

checks = []
for c in CATALOG:
    if c["id"] in NOT_APPLICABLE or c["id"] not in registry.PROPS:
        continue
    checks.append({
        "property": c["id"],
        "quick_cmd": f"python3 check.py {c['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {c['id']} --tier thorough",
        "technique": c["technique"],
        "level": "exploration",
        "level_note": c["level_note"],
    })
manifest = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
}
(VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
missing = {c["id"] for c in CATALOG} - set(registry.PROPS) - set(NOT_APPLICABLE)
if missing:
    sys.exit(f"no check for {sorted(missing)}")
