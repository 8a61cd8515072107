"""Writes MANIFEST.json from the list of properties and the simulations present."""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
sys.path.insert(0, str(ROOT))
import mkprops  # noqa
from claims import CLAIMS  # noqa

checks, na = [], []
for p in mkprops.P:
    pid = p["id"]
    if pid in mkprops.NA:
        na.append({"property": pid, "reason": mkprops.NA[pid]})
    elif pid in CLAIMS and (ROOT / "potsim" / "worlds" / (pid.lower() + ".py")).exists():
        tech, note = CLAIMS[pid]
        cmd = f"/opt/venv/bin/python check.py {pid}"
        checks.append({"property": pid, "quick_cmd": cmd, "thorough_cmd": f"VERIF_TIER=thorough {cmd}", "technique": tech,
                       "level": "exploration", "level_note": note})
    else:
        na.append({"property": pid, "reason": "the simulation for this property is not built yet"})
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "hooks": {"guard": "none", "enable": "no hook is needed in /repo: the seams are Python line events, the module import system, the random generators, the standard streams and a rebuilt copy of the compiled extension", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "see DESIGN.md; known_findings.json lists genuine defects found (fixed and open)"}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
