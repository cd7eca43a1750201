#!/bin/bash
# usage: tools/runseeds.sh [ID...]: runs the owning check against each planted bug in /repo (clean tree needed)
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
 git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d APPLY FAILED"; continue; }
 s=$(date +%s); out=$(timeout 900 ./check.sh $p quick -noevidence 2>&1); rc=$?
 git -C /repo checkout -q -- .
 n=$(echo "$out" | grep -c "^VIOLATION property=$p ")
 echo "$d $p rc=$rc violations=$n $(( $(date +%s)-s ))s: $(echo "$out" | grep -B1 VIOLATION | head -1 | cut -c1-160)"
 python3 - "$d" "$p" "$rc" "$n" <<'P'
import json,sys,os
f='tools/caught.json'; c=json.load(open(f)) if os.path.exists(f) else {}
d,p,rc,n=sys.argv[1:]
c[d]=f"{p} quick" if rc=="1" and int(n)>0 else f"missed by {p} quick"
json.dump(dict(sorted(c.items())),open(f,'w'),indent=1)
P
done
