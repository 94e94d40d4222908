#!/bin/bash
# tools/fix.sh PROPERTY "message": commits /repo's working tree as a fix and records it
set -e
cd "${VP_REPO:-/repo}"
git add -u
git commit -qm "fix: $2"
h=$(git rev-parse --short=10 HEAD)
cd /verif
python3 - "$1" "$h" "$2" <<'PY'
import json,sys
p="/verif/known/findings.json"
d=json.load(open(p))
d["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(d,open(p,"w"),indent=1)
PY
echo "$h $2"
