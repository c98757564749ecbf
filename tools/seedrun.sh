#!/bin/bash
# seedrun.sh ID...: applies each planted bug, runs its property's check, restores /repo
for s in "$@"; do d=/verif/seeded/$s; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff 2>/dev/null || { echo "$s: does not apply"; continue; }
t=$(date +%s); o=$(cd /verif; python3 check.py $p 2>&1); r=$?; git -C /repo checkout -- . 2>/dev/null
echo "$s $p exit=$r $(( $(date +%s)-t ))s: $(echo "$o" | grep -A2 '^VIOLATION' | cut -c1-160 | head -3 | tr '\n' ' ')"; done
