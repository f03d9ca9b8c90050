import json,jsonschema,sys
from pathlib import Path
v=Path('/verif'); s=Path('/root/.vp')
S=json.loads((s/'PROPERTIES.schema.json').read_text())
for l in (v/'properties.jsonl').read_text().splitlines(): jsonschema.validate(json.loads(l),S)
jsonschema.validate(json.loads((v/'MANIFEST.json').read_text()),json.loads((s/'MANIFEST.schema.json').read_text()))
for f in (v/'evidence').glob('C*.json'): jsonschema.validate(json.loads(f.read_text()),json.loads((s/'EVIDENCE.schema.json').read_text()))
print('valid')
