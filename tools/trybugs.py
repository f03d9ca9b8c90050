"""trybugs.py [ids...]: apply each planted bug to /repo, run its property's quick check (or, with ALL=1, every check), record the outcome
in tools/catches.json, undo."""
import json
import os
import re
import subprocess
import sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
C = V / "tools/catches.json"
res = json.loads(C.read_text()) if C.exists() else {}
ids = sys.argv[1:] or sorted(d.name for d in (V / "seeded").iterdir())
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout
for i in ids:
    d = V / "seeded" / i
    prop = json.loads((d / "meta.json").read_text())["property"]
    r = subprocess.run(["git", "-C", "/repo", "apply", str(d / "patch.diff")])
    assert r.returncode == 0, i
    try:
        checks = [prop] if not os.environ.get("ALL") else sorted(p.stem for p in (V / "checks").glob("C*.py"))
        got = []
        for c in checks:
            p = subprocess.run(["timeout", "880", "/opt/venv/bin/python", "run.py", c], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            if p.returncode == 1 and f"VIOLATION property={c}" in p.stdout:
                got.append(c)
            m = re.search(r"VIOLATION.*\n(.*)", p.stdout)
            print(i, c, p.returncode, m.group(1)[:160] if m else p.stdout.strip()[-160:] + p.stderr.strip()[-200:], flush=True)
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    res[i] = got
    C.write_text(json.dumps(res, indent=1, sort_keys=True))
