#!/bin/bash
# fix.sh PROPERTY "commit subject (no fix: prefix)" "what failed"  -- commits /repo's change and records it
set -e
cd /repo; git commit -qam "fix: $2"; c=$(git rev-parse --short HEAD)
python3 - "$1" "$c" "$3" <<'PY'
import json,sys
p='/verif/known_findings.json'; d=json.load(open(p))
d['fixed'].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(d,open(p,'w'),indent=1); open(p,'a').write("\n")
PY
