"""Regenerates the per-property section and the catch matrix of DESIGN.md from
tools/design.json (text) and tools/catches.json (measured)."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
head = (V / "DESIGN.md").read_text().split("<!-- generated below -->")[0].rstrip() + "\n\n<!-- generated below -->\n"
D = json.loads((V / "tools/design.json").read_text())
P = {p["id"]: p for p in map(json.loads, (V / "properties.jsonl").read_text().splitlines())}
out = ["", "## Per property", ""]
for i, p in P.items():
    d = D.get(i, {})
    out += [f"### {i} {p['title']}", ""]
    if (V / f"checks/{i}.py").exists():
        out += [f"*Specification:* {d.get('spec','')}", "", f"*Binding and oracle:* {d.get('bind','')}", "",
                f"*Bounds and cost:* {d.get('bounds','')}", "", f"*Beyond the tests:* {d.get('why','')}", ""]
    else:
        out += ["Not built yet.", ""]
out += ["## Defects found and repaired", ""]
for l in (V / "known_findings.jsonl").read_text().splitlines():
    e = json.loads(l)
    out.append("* " + e["what"].replace("fixed: ", "") if e["status"] == "fixed" else f"* KNOWN (not repaired): property={e['property']} {e['what']}")
c = V / "tools/catches.json"
if c.exists():
    out += ["", "## Planted bugs and what catches them", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
    C = json.loads(c.read_text())
    for d in sorted((V / "seeded").iterdir()):
        if (d / "meta.json").exists():
            m = json.loads((d / "meta.json").read_text())
            out.append(f"| {d.name} | {m['property']} | {m['needs']} | {', '.join(C.get(d.name, [])) or 'not measured / missed'} |")
(V / "DESIGN.md").write_text(head + "\n".join(out) + "\n")
