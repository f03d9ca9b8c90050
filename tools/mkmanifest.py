"""Writes MANIFEST.json from the checks that exist."""
import json, re
from pathlib import Path
V = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
NOTES = json.loads((V / "tools/levels.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / f"checks/{i}.py").exists():
        n = NOTES.get(i, {})
        checks.append(dict(property=i,
            quick_cmd=f"/opt/venv/bin/python run.py {i} --tier quick",
            thorough_cmd=f"/opt/venv/bin/python run.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique=n.get("technique", "TLA+ specification checked by TLC; model behaviours replayed into the real code"),
            level=n.get("level", "model_checking"),
            level_note=n.get("note", "Specification model-checked within small constants; the code is bound by conformance on every enumerated and seeded input explored, not for all inputs.")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py",
         hooks=dict(guard="none", enable="no hooks were needed: the public API exposes the abstract state", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+/TLC. See DESIGN.md. Checks build the C++ extensions from /repo's tree with the nanobind stand-in in shim/.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), len(na))
