#!/bin/bash
# mkseed.sh ID PROP "needs" "what it breaks": takes the edits in /tmp/sw (a copy of /repo), the demo in /tmp/sd, and keeps them
# as /verif/seeded/ID after confirming that it builds, passes the stable tests, and that the demo tells the two apart.
set -e
id=$1; prop=$2; needs=$3; breaks=$4
. /opt/vp/env.sh; export GOSUMDB=off
d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/sw diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch"; exit 1; }
cp -r /tmp/sd/. $d/
python3 - "$d" "$prop" "$needs" "$breaks" <<'P'
import json,sys
d,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+"/meta.json","w"),indent=1)
P
(cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1) || { echo "DEMO FAILS ON CLEAN"; tail -5 /tmp/demo.out; exit 1; }
git -C /repo apply $d/patch.diff
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh || { echo "DOES NOT BUILD"; exit 1; }
bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1 || true
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtest.json'))
want=set(b.get('stable') or b.get('passed') or [])
got=set(r.get('passed') or [])
m=want-got
print("stable",len(want),"missing",sorted(m)[:5])
sys.exit(1 if m or not want else 0)
P
if (cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1); then echo "DEMO PASSES WITH BUG"; exit 1; fi
tail -3 /tmp/demo.out
echo "kept $id"
