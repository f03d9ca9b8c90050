"""seed.py FILE.py: plant the bugs listed in FILE.py (BUGS = [dict(id, prop, needs, what, edits=[(file, old, new)], demo=python source,
native=bool)]) one by one in /repo, confirm each (builds, stable tests pass, demo fails with it and passes without), store under seeded/."""
import json
import runpy
import shutil
import subprocess
import sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
R = Path("/repo")
PY = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def clean():
    sh("git -C /repo checkout -q -- .")


def demo(d):
    return sh(["bash", str(d / "demo.sh")], cwd="/repo", timeout=300)


assert not sh("git -C /repo status --porcelain").stdout
only = sys.argv[2:]
for b in runpy.run_path(sys.argv[1])["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = V / "seeded" / b["id"]
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    try:
        for f, old, new in b["edits"]:
            p = R / f
            s = p.read_text()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            p.write_text(s.replace(old, new))
        (d / "patch.diff").write_text(sh("git -C /repo diff").stdout)
        (d / "meta.json").write_text(json.dumps(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["what"]), indent=1))
        (d / "demo.py").write_text(b["demo"].lstrip())
        if b.get("native"):
            shutil.copytree(V / "shim", d / "shim")
            s = (V / "lib/irsload.py").read_text()
            s = s.replace('VERIF = Path(__file__).resolve().parent.parent', 'VERIF = Path(__file__).resolve().parent')
            s = s.replace('str(VERIF / ".cache")', '__import__("tempfile").mkdtemp()')
            s = s.replace("with the nanobind\nstand-in in /verif/shim", "with the nanobind\nstand-in beside this file").replace("objects go to /verif/.cache (git-ignored)", "objects go to a scratch folder")
            assert "/verif" not in s, s
            (d / "irsmini.py").write_text(s)
        pp = "/opt/vp/scope"
        (d / "demo.sh").write_text(f"""#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="{pp}:$here" OPENBLAS_NUM_THREADS=2
exec timeout 280 {PY} "$here/demo.py"
""")
        bl = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seed-out.json")
        passed = json.loads(Path("/tmp/seed-out.json").read_text())
        r1 = demo(d)
    finally:
        clean()
    r0 = demo(d)
    ok = bl.returncode == 0 and not passed["failed"] and r0.returncode == 0 and r1.returncode not in (0, 124)
    print(b["id"], "OK" if ok else "REJECTED", "build", bl.returncode, "tests", len(passed["passed"]), len(passed["failed"]), "demo clean", r0.returncode, "demo bug", r1.returncode,
          (r1.stdout + r1.stderr).strip().splitlines()[-1:][0][:150] if (r1.stdout + r1.stderr).strip() else "")
    if not ok:
        print((r0.stdout + r0.stderr)[-1500:])
        shutil.rmtree(d)
