#!/bin/bash
# fix.sh PROP "commit message" "what failed": commit a repair in /repo and record it
set -e
cd /repo && git commit -qam "fix: $2"
h=$(git rev-parse --short HEAD)
python3 - "$1" "$h" "$3" >> /verif/known_findings.jsonl <<'P'
import json,sys
p,h,w=sys.argv[1:]
print(json.dumps(dict(status="fixed",property=p,commit=h,what=f"fixed: property={p} {h} {w}")))
P
tail -1 /verif/known_findings.jsonl
