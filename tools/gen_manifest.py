"""Writes MANIFEST.json from the list of checks (run by hand after adding a check)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.path.insert(0, V)
NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
import registry  # noqa: E402

checks, na = [], []
for p in props:
    if p in registry.CHECKS:
        tech, note = NOTE.get(p, NOTE["default"])
        checks.append({"property": p,
                       "quick_cmd": "/opt/venv/bin/python -B check.py %s" % p,
                       "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python -B check.py %s" % p,
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": NOTE.get("na", {}).get(p, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B lib/lint_spec.py && for f in spec/*.qnt; do quint typecheck $f || exit 1; done",
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
